SPECIFICATION TraceSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE

