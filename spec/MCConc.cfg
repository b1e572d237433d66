SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT InvIndependent
PROPERTIES OneAtATime
