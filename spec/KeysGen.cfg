SPECIFICATION GenSpec
CONSTANTS MaxOps = 36 Emit = TRUE MaxRegs = 99
INVARIANTS Sound OneIdentity Usable Show
CHECK_DEADLOCK FALSE
