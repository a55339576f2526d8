SPECIFICATION Spec
CONSTANTS
    MaxFolders = 4
    MaxSubs = 2
    MaxPacked = 1
    Sizes = {1}
    Digests = "none"
    MinEmpty = 0
    MaxEmpty = 0
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
