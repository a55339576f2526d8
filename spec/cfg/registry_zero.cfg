SPECIFICATION Spec
CONSTANTS
    Ids = {"01", "0001", "0100", "ff010203040506070809"}
    Versions = {1, 2}
    Initial = 0
    Handles = {1}
VIEW View
PROPERTIES Exact OnlyByRegister Latest Keep
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
