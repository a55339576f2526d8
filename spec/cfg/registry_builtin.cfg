SPECIFICATION Spec
CONSTANTS
    Ids = {"00", "03", "030101", "03030103", "040108", "21", "06f10701"}
    Versions = {1}
    Initial = 9
    Handles = {1}
VIEW View
PROPERTIES Exact OnlyByRegister Latest Keep
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
