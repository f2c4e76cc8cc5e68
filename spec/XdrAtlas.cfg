SPECIFICATION AtlasSpec
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
