SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxS = 17
  Unrolls = {1, 2, 3, 4}
  Pols = {"none", "aligned", "auto", "match"}
  Algs = {"for_each", "transform"}
INVARIANTS ExactlyOnce InBounds
PROPERTIES Refines
CHECK_DEADLOCK FALSE
