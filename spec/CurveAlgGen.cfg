SPECIFICATION GenSpec
CONSTANTS Curve = "ed" MaxOps = 40 Emit = TRUE Atoms = {1, 2, 3, 4}
INVARIANTS Show
CHECK_DEADLOCK FALSE
