SPECIFICATION Spec
CONSTANTS
    Files <- FilesSmall
    Handles = {1, 2}
    Buffers = {0, 1, 2, 9}
    Vias = {"file", "fs"}
VIEW View
INVARIANTS TypeOK
PROPERTIES ExactBytes StaysClosed Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
