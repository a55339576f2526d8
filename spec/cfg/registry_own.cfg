SPECIFICATION Spec
CONSTANTS
    Ids = {"", "01", "0102", "02"}
    Versions = {1, 2}
    Initial = 0
    Handles = {1, 2}
VIEW View
PROPERTIES Exact OnlyByRegister Latest Keep
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
