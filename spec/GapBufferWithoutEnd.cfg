SPECIFICATION Spec
VIEW View
CONSTRAINT Modest
INVARIANTS Bounded SameContent SamePositions
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutEnd
  Pieces <- Some
  MaxLen = 3
