SPECIFICATION Spec
CONSTANTS
  MaxN = 21
  MaxS = 9
  Unrolls = {1, 2, 3}
  Pols = {"none", "aligned", "auto", "match"}
  Algs = {"for_each", "transform"}
INVARIANTS ExactlyOnce InBounds
PROPERTIES Refines
CHECK_DEADLOCK FALSE
