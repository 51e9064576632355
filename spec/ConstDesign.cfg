CONSTANTS B = 65536 H = 256 LB = 16 Narrow = 16 MaxV = 700
SPECIFICATION Spec
INVARIANTS LiteralOk Once
CHECK_DEADLOCK FALSE
