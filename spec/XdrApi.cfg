SPECIFICATION ApiSpec
INVARIANT LedgerOk
CHECK_DEADLOCK FALSE
