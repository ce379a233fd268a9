SPECIFICATION Spec
CONSTANTS Dir = {1} MaxOps = 5 MaxConn = 3 Emit = FALSE
INVARIANTS SameIdentity OnlyWanted
PROPERTIES Starts AllAct Stops
CHECK_DEADLOCK FALSE
