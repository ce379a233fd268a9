SPECIFICATION Spec
CONSTANTS Addr = {1, 2} Dead = {} Id = {1, 2} MaxOps = 5 MaxBuf = 2 Emit = FALSE Sync = FALSE
INVARIANTS OneEach
PROPERTIES Kept OneEffect
VIEW Abstract
CHECK_DEADLOCK FALSE
