SPECIFICATION Spec
CONSTANTS
    p1 = p1
    p2 = p2
    p3 = p3
    Streams <- OneStream
    Procs = {p1,p2,p3}
    Cap = 1
    Programs <- ProgFew
    Split = FALSE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
SYMMETRY Alike
CONSTRAINT Emit
