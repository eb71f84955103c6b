SPECIFICATION Spec
INVARIANT Rules
INVARIANT KeepsInputs
PROPERTY Terminates
PROPERTY Grows
CHECK_DEADLOCK FALSE
