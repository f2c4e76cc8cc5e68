SPECIFICATION SweepSpec
INVARIANT SweepOk
CHECK_DEADLOCK FALSE
CONSTANTS
    SpecOf <- SweepSpecOf
    InpOf <- SweepInpOf
    EofOf <- SweepEofOf
    QuirkOf <- SweepQuirkOf
    ObsOf <- SweepObsOf
