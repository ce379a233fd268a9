SPECIFICATION GenSpec
CONSTANTS Chans = {1, 2} Intervals = {1, 2, 3, 5, 64, 255, 256, 1000, 1000000000} Ads <- GenAds Pts <- GenPts MaxSend = 40 MaxLog = 60 Emit = TRUE Bursts <- GenBursts Floods = {1}
INVARIANTS Prefix Undisturbed NonceUnique InStep Show
CHECK_DEADLOCK FALSE
