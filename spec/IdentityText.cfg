SPECIFICATION Spec
INVARIANTS Agrees Prints Short
CHECK_DEADLOCK FALSE
