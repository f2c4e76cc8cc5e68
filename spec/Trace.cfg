SPECIFICATION TraceSpec
INVARIANT TraceOk
CHECK_DEADLOCK FALSE
CONSTANTS
    SpecOf <- TraceSpecOf
    InpOf <- TraceInpOf
    EofOf <- TraceEofOf
    QuirkOf <- TraceQuirkOf
    ObsOf <- CaseOf
