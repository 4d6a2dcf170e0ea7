SPECIFICATION Spec
INVARIANTS Accepted Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutBreak
  Alphabet <- Narrow
  MaxLen = 3
  MaxEvents = 2
