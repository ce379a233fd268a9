SPECIFICATION Spec
CONSTANTS MaxOps = 6 Emit = FALSE MaxBlocks = 3 Menu = "small"
INVARIANTS Lossless Faithful Flat
VIEW Abstract
CHECK_DEADLOCK FALSE
