CONSTANTS MaxMembers = 20 MaxHi = 40
SPECIFICATION Spec
INVARIANTS InRange Shrinks Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
