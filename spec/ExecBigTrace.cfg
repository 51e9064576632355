SPECIFICATION TraceSpec
CONSTANT Base = 1048576
INVARIANTS TypeOK DoneIsComplete
POSTCONDITION Report
CHECK_DEADLOCK FALSE
