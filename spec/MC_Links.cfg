SPECIFICATION Spec
INVARIANT Rules
INVARIANT OneEach
PROPERTY Terminates
PROPERTY Grows
CHECK_DEADLOCK FALSE
