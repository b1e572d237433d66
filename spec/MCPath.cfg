SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvIdempotent InvNames InvShorter InvPlain InvNoPlace InvMethods
