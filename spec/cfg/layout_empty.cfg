SPECIFICATION Spec
CONSTANTS
    MaxFolders = 1
    MaxSubs = 2
    MaxPacked = 1
    Sizes = {1}
    Digests = "files"
    MinEmpty = 2
    MaxEmpty = 4
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
