SPECIFICATION Spec
INVARIANTS Accepted Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutReset
  Alphabet <- Narrow
  MaxLen = 3
  MaxEvents = 2
