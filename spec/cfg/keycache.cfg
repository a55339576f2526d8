SPECIFICATION Spec
CONSTANTS
    Archives = {1, 2, 3, 4}
    Passwords = {1, 2}
    Cap = 2
    Handles = {1}
    Blocks = 2
    TooCostly = {4}
VIEW View
INVARIANTS CacheRight Bounded NoDuplicates
PROPERTIES RightKey RejectsLeaveNoTrace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
