SPECIFICATION Spec
CONSTANTS Good = {"any"} Bad = {"taken"} Far = {"refused"} MaxOps = 8 MaxQ = 2 MaxLife = 2 Emit = FALSE
INVARIANTS NoNode AtMostOne
PROPERTIES Stays Returns Ends
CHECK_DEADLOCK FALSE
