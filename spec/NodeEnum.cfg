SPECIFICATION ESpec
CONSTANTS Dir = {1} MaxOps = 100 MaxConn = 100 Emit = TRUE Points = 20 First = {3, 8, 12, 16}
INVARIANTS EShow
CHECK_DEADLOCK FALSE
