SPECIFICATION Spec
CONSTANTS
    p1 = p1
    p2 = p2
    Streams <- OneStream
    Procs = {p1,p2}
    Cap = 1
    Programs <- ProgFew
    Split = FALSE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
PROPERTY Ends
