SPECIFICATION Spec
CONSTANT Cases <- Longs
INVARIANTS ViewIsRight ValidPaths CleanIsIdempotent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
