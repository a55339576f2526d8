SPECIFICATION Spec
CONSTANTS
    p1 = p1
    p2 = p2
    Streams <- TwoStreams
    Procs = {p1,p2}
    Cap = 2
    Programs <- ProgTwo
    Split = FALSE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
SYMMETRY Alike
CONSTRAINT Emit
