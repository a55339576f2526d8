SPECIFICATION Spec
CONSTANTS
    Block = 4096
    Sig = 6
    Limit = 1048576
    HeaderSize = 32
    Places <- AllPlaces
    DecoyPlaces <- DecoyMany
    MaxDecoys = 1
    Fragments = {0, 1}
INVARIANTS Finds Rejects AllFound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
