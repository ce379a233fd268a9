SPECIFICATION Spec
CONSTANTS Peers = {1, 2} Places = {"v4", "v6"} Texts = {"empty", "long"} MaxOps = 4 Emit = FALSE
INVARIANTS AsAsked Counted
CHECK_DEADLOCK FALSE
