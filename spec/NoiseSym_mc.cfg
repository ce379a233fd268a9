SPECIFICATION Spec
CONSTANTS Names = {"N1", "N2"} Lens = {1} Labels = {"a", "b"} MaxN = 7 MaxOps = 7 Emit = FALSE
INVARIANTS HistoryDecides SameHistorySameState NoNonceReuse
CHECK_DEADLOCK FALSE
