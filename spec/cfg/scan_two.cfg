SPECIFICATION Spec
CONSTANTS
    Block = 4096
    Sig = 6
    Limit = 1048576
    HeaderSize = 32
    Places <- SomePlaces
    DecoyPlaces <- DecoyFew
    MaxDecoys = 2
    Fragments = {0, 1, 2, 3, 4, 5}
INVARIANTS Finds Rejects AllFound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
