SPECIFICATION Spec
INVARIANTS Accepted Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutTrim
  Alphabet <- Narrow
  MaxLen = 3
  MaxEvents = 2
