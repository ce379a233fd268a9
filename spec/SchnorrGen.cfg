SPECIFICATION GenSpec
CONSTANTS MaxOps = 24 Emit = TRUE Msgs = {1, 2, 3, 4, 5, 6} Cancel = TRUE
INVARIANTS Genuine OnlyGenuine Show
CHECK_DEADLOCK FALSE
