SPECIFICATION Spec
CONSTANTS
    MaxFolders = 3
    MaxSubs = 2
    MaxPacked = 2
    Sizes = {1}
    Digests = "files"
    MinEmpty = 0
    MaxEmpty = 1
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
