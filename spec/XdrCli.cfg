SPECIFICATION CliSpec
INVARIANTS CliOk
PROPERTIES CliEnds
CHECK_DEADLOCK FALSE
