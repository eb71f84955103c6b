SPECIFICATION Spec
INVARIANT Rules
PROPERTY Terminates
PROPERTY Grows
CHECK_DEADLOCK FALSE
