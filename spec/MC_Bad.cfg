SPECIFICATION Spec
INVARIANT Rules
INVARIANT OnlyGood
PROPERTY Terminates
PROPERTY Grows
CHECK_DEADLOCK FALSE
