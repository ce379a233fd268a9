SPECIFICATION GenSpec
CONSTANTS MaxOps = 24 Emit = TRUE Seeds = {1, 2, 3} Flips = {1, 2, 3, 4, 5, 6}
INVARIANTS Recovered NothingElse Implicit Separate Show
CHECK_DEADLOCK FALSE
