SPECIFICATION Spec
CONSTANTS
    p1 = p1
    p2 = p2
    Streams <- OneStream
    Procs = {p1,p2}
    Cap = 1
    Programs <- ProgOne
    Split = TRUE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
SYMMETRY Alike
