SPECIFICATION Spec
CONSTANT Cases <- Small
INVARIANTS ViewIsRight ValidPaths CleanIsIdempotent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
