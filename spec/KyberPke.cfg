SPECIFICATION Spec
INVARIANTS KeysMatch EncapsulationMatches DecapsulationMatches
CHECK_DEADLOCK FALSE
