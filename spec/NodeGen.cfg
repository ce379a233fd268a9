SPECIFICATION GenSpec
CONSTANTS Dir = {1, 2} MaxOps = 24 MaxConn = 200 Emit = TRUE Mode = "crash" MaxOpsOf = 30 Streak = 25
INVARIANTS SameIdentity OwnIdentity Durable InOrder Show
CHECK_DEADLOCK FALSE
