SPECIFICATION Spec
VIEW View
CONSTRAINT Modest
INVARIANTS Bounded SameContent SamePositions
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutWhole
  Pieces <- Some
  MaxLen = 3
