SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
  B = 4
  H = 2
  LB = 2
  Narrow = 2
  Types <- MCTypes
