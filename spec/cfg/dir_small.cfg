SPECIFICATION Spec
CONSTANTS
    Dirs <- DirsSmall
    Handles = {1, 2}
    Batches <- BatchesSmall
VIEW View
INVARIANTS ExactlyOnce InRange
PROPERTIES EofOnlyAtEnd Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
