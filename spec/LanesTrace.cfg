SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANTS
  B = 65536
  H = 256
  LB = 16
  Narrow = 16
