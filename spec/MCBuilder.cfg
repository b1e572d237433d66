SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvLatest
PROPERTIES Framed
