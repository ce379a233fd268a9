SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emit = FALSE MaxRegs = 3
INVARIANTS Sound OneIdentity Usable
VIEW Abstract
CHECK_DEADLOCK FALSE
