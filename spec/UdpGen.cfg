SPECIFICATION GenSpec
CONSTANTS Addr = {1, 2, 3, 4} Dead = {5, 6} Id = {1, 2, 3} MaxOps = 40 MaxBuf = 4 Emit = TRUE Sync = TRUE
INVARIANTS OneEach Show
CHECK_DEADLOCK FALSE
