SPECIFICATION Spec
INVARIANT Rules
INVARIANT OptionsWork
PROPERTY Terminates
PROPERTY Grows
CHECK_DEADLOCK FALSE
