SPECIFICATION TSpec
CONSTANTS Dir = {1, 2} MaxOps = 100000 MaxConn = 100000 Emit = FALSE
INVARIANTS SameIdentity OwnIdentity Durable InOrder TShow
VIEW TView
CHECK_DEADLOCK FALSE
