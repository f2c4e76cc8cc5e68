SPECIFICATION Spec
INVARIANTS Contract LargeContract
CHECK_DEADLOCK FALSE
