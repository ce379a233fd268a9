SPECIFICATION TSpec
CONSTANTS Addr = {1, 2, 3, 4} Dead = {5, 6} Id = {1, 2, 3} MaxOps = 1000 MaxBuf = 4 Emit = FALSE Sync = FALSE
INVARIANTS OneEach TShow
VIEW TView
CHECK_DEADLOCK FALSE
