SPECIFICATION TextSpec
INVARIANT TextOk
CHECK_DEADLOCK FALSE
CONSTANTS
    TextOf <- TextTextOf
