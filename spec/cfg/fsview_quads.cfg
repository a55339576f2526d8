SPECIFICATION Spec
CONSTANT Cases <- Quads
INVARIANTS ViewIsRight ValidPaths CleanIsIdempotent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
