SPECIFICATION TraceSpec
CONSTANTS
    Streams <- OneStream
    Procs = {1, 2, 3}
    Cap = 1
    Programs = {}
    Split = FALSE
INVARIANTS Exclusive Faithful Bounded Distinct NoneAtEnd NoneForSingle
ACTION_CONSTRAINT Report
CHECK_DEADLOCK FALSE
