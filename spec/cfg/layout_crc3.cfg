SPECIFICATION Spec
CONSTANTS
    MaxFolders = 1
    MaxSubs = 3
    MaxPacked = 3
    Sizes = {0, 1}
    Digests = "any"
    MinEmpty = 0
    MaxEmpty = 0
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
