SPECIFICATION Spec
CONSTANTS
    Streams <- LSolid
    Handles = {1, 2}
    Cap = 1
    ReadSizes = {1, 9}
    CloseFails = {FALSE}
    Faults = FALSE
VIEW View
INVARIANTS TypeOK Bounded Distinct NoneAtEnd NoneForSingle
PROPERTIES Conserved Closest Faithful
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
