SPECIFICATION DumpSpec
CHECK_DEADLOCK FALSE
