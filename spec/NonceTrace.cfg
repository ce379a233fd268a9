SPECIFICATION Spec
INVARIANTS Counts Starts
CHECK_DEADLOCK FALSE
