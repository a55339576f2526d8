SPECIFICATION Spec
CONSTANTS
    Files <- FilesOne
    Handles = {1}
    Buffers = {0, 1, 2, 3, 4, 5, 6}
    Vias = {"file", "fs"}
VIEW View
INVARIANTS TypeOK
PROPERTIES ExactBytes StaysClosed Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
