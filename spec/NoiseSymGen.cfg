SPECIFICATION GenSpec
CONSTANTS Names <- SimNames Lens <- SimLens Labels = {"a", "b", "c"} MaxN = 7 MaxOps = 22 Emit = TRUE
INVARIANTS HistoryDecides SameHistorySameState NoNonceReuse Show
CHECK_DEADLOCK FALSE
