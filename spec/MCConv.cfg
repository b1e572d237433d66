SPECIFICATION Spec
INVARIANTS InvMeaning InvBack InvStable
CHECK_DEADLOCK FALSE
