SPECIFICATION Spec
CONSTANTS
    MaxFolders = 2
    MaxSubs = 3
    MaxPacked = 1
    Sizes = {0, 1, 2}
    Digests = "files"
    MinEmpty = 0
    MaxEmpty = 0
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
