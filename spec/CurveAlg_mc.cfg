SPECIFICATION Spec
CONSTANTS Curve = "ed" MaxOps = 4 Emit = FALSE Atoms = {1, 2}
INVARIANTS Laws
CHECK_DEADLOCK FALSE
