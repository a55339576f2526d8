SPECIFICATION Spec
CONSTANT Cases <- Triples
INVARIANTS ViewIsRight ValidPaths CleanIsIdempotent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
