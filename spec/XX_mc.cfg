SPECIFICATION Spec
CONSTANTS Casts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29} Budget = 0 Damages = {0, 1, 2} Emit = FALSE
INVARIANTS HonestCompletes Agreement NothingAltered IdentityEnforced Separate Secrecy ForwardSecrecy Show
CHECK_DEADLOCK FALSE
