SPECIFICATION Spec
CONSTANT MaxN = 8
INVARIANTS RotationsAdd Conserves Inverses ShiftLaws SplitLaws ResizeLaws Transposition
CHECK_DEADLOCK FALSE
