SPECIFICATION Spec
CONSTANTS Dir = {1, 2} MaxOps = 5 MaxConn = 2 Emit = TRUE
INVARIANTS SameIdentity OwnIdentity Durable InOrder
PROPERTIES NothingSkipped StopsWell
VIEW Abstract
CHECK_DEADLOCK FALSE
