SPECIFICATION GenSpec
INVARIANTS DecodesWhatIsEncoded SizeIsConsumed Exact Inside NotStuck AtLeast
CHECK_DEADLOCK FALSE
CONSTANTS
    SpecOf <- GenSpecOf
    InpOf <- GenInpOf
    EofOf <- GenEofOf
    QuirkOf <- GenQuirkOf
