SPECIFICATION DSpec
CONSTANT MaxOps = 6
INVARIANTS Accounted Fresh
PROPERTIES KeepsValues LookPerforms
CHECK_DEADLOCK FALSE
