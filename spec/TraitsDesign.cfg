SPECIFICATION Spec
INVARIANTS Exclusive Leaves Order
CHECK_DEADLOCK FALSE
CONSTANTS
  B = 65536
  H = 256
  LB = 16
  Narrow = 16
