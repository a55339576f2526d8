SPECIFICATION Spec
CONSTANTS
    Streams <- LLong
    Handles = {1, 2}
    Cap = 3
    ReadSizes = {1}
    CloseFails = {FALSE}
    Faults = FALSE
VIEW View
INVARIANTS TypeOK Bounded Distinct NoneAtEnd NoneForSingle
PROPERTIES Conserved Closest Faithful
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
