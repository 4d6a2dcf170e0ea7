SPECIFICATION Spec
VIEW View
CONSTRAINT Modest
INVARIANTS Bounded SameContent SamePositions
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- Everything
  Pieces <- Some
  MaxLen = 4
