SPECIFICATION Spec
INVARIANT ExactlyOnce
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 130
