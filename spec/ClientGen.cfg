SPECIFICATION GenSpec
CONSTANTS Peers = {1, 2, 3} Places = {"v4", "loop", "zero", "broadcast", "v6", "loop6", "mapped", "zero6"}
  Texts = {"empty", "word", "spaces", "lines", "unicode", "dash", "quotes", "long", "huge", "identity", "nul-like"} MaxOps = 40 Emit = TRUE
INVARIANTS AsAsked Show
CHECK_DEADLOCK FALSE
