SPECIFICATION GenericsSpec
INVARIANTS MarkedReach DoneIsAll
CHECK_DEADLOCK FALSE
