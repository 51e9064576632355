SPECIFICATION TraceSpec
INVARIANTS TypeOK DoneIsComplete
POSTCONDITION Report
CHECK_DEADLOCK FALSE
