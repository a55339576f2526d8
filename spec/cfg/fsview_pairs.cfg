SPECIFICATION Spec
CONSTANT Cases <- Pairs
INVARIANTS ViewIsRight ValidPaths CleanIsIdempotent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
