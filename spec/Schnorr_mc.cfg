SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emit = FALSE Msgs = {1, 2} Cancel = TRUE
INVARIANTS Genuine OnlyGenuine
VIEW Abstract
CHECK_DEADLOCK FALSE
