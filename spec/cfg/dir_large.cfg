SPECIFICATION Spec
CONSTANTS
    Dirs <- DirsLarge
    Handles = {1}
    Batches <- BatchesLarge
VIEW View
INVARIANTS ExactlyOnce InRange
PROPERTIES EofOnlyAtEnd Independent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
