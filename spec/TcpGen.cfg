SPECIFICATION GenSpec
CONSTANTS Good = {"any", "loop", "loop6", "same"} Bad = {"taken", "foreign", "foreign6"}
  Far = {"listening", "listening2", "refused", "foreign", "foreign6", "multicast", "broadcast", "zero", "silent", "self", "discard"}
  MaxOps = 30 MaxQ = 1000 MaxLife = 3 Emit = TRUE
INVARIANTS NoNode AtMostOne Show
PROPERTIES Stays
CHECK_DEADLOCK FALSE
