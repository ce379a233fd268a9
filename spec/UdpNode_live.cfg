SPECIFICATION Spec
CONSTANTS Addr = {1} Dead = {} Id = {1} MaxOps = 6 MaxBuf = 2 Emit = FALSE Sync = FALSE
INVARIANTS OneEach
PROPERTIES Ends Returns Finishes
CHECK_DEADLOCK FALSE
