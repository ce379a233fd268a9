SPECIFICATION Spec
CONSTANTS Chosen <- AllNames Emit = TRUE
INVARIANTS Agree AllAccepted Show
CHECK_DEADLOCK FALSE
