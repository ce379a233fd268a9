SPECIFICATION GenSpec
CONSTANTS MaxOps = 30 Emit = TRUE MaxBlocks = 99 Menu = "big"
INVARIANTS Show
CHECK_DEADLOCK FALSE
