SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emit = FALSE Seeds = {1} Flips = {1, 4}
INVARIANTS Recovered NothingElse Implicit Separate Show
CHECK_DEADLOCK FALSE
VIEW Abstract
