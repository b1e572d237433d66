SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT InvFaults
INVARIANT InvCanon
INVARIANT InvKeeps
VIEW View
