SPECIFICATION LongSpec
CONSTANTS Names = {"Noise_XX_x", ""} Lens = {0, 1, 16, 48} Labels = {"a", "b", "c"} MaxN = 299 MaxOps = 720 Emit = TRUE
INVARIANTS Show
CHECK_DEADLOCK FALSE
