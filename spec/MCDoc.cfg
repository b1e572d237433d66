SPECIFICATION Spec
VIEW View
INVARIANT Framed
INVARIANT InvParams
INVARIANT InvKeys
INVARIANT InvRefs
INVARIANT InvNames
INVARIANT InvExport
CHECK_DEADLOCK FALSE
