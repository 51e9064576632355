SPECIFICATION Spec
INVARIANT TypesKept
PROPERTIES LaneLocal WhereIsBlend StoreLoad WStoreFrame DivMod MaskLaws
CHECK_DEADLOCK FALSE
CONSTANTS
  B = 4
  H = 2
  LB = 2
  Narrow = 2
