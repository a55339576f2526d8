SPECIFICATION Spec
CONSTANTS
    MaxFolders = 2
    MaxSubs = 2
    MaxPacked = 1
    Sizes = {1}
    Digests = "any"
    MinEmpty = 0
    MaxEmpty = 1
INVARIANTS InOrder Adjacent Complete Checksums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
