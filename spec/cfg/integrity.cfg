SPECIFICATION Spec
CONSTANTS
    MaxDamage = 2
    Archives <- All
INVARIANTS Detected PartlySigned StartOnly PackedDetected Outside TooMuch
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
