SPECIFICATION Spec
VIEW View
CONSTRAINT Modest
INVARIANTS Bounded SameContent SamePositions
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutBackwards
  Pieces <- Some
  MaxLen = 3
