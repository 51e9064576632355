SPECIFICATION Spec
CONSTANTS
  Base = 4
  MaxN = 7
  MaxS = 3
INVARIANTS SameState SameRules TypeOK
CHECK_DEADLOCK FALSE
