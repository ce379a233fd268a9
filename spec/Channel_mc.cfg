SPECIFICATION Spec
CONSTANTS Chans = {1, 2} Intervals = {1, 2, 3, 1000} Ads = {0, 3} Pts = {5} MaxSend = 2 MaxLog = 0 Emit = FALSE Bursts = {2} Floods = {1}
INVARIANTS Prefix Undisturbed NonceUnique InStep
CHECK_DEADLOCK FALSE
