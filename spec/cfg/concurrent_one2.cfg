SPECIFICATION Spec
CONSTANTS
    p1 = p1
    p2 = p2
    Streams <- OneStream
    Procs = {p1,p2}
    Cap = 2
    Programs <- ProgOne
    Split = FALSE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
SYMMETRY Alike
CONSTRAINT Emit
