SPECIFICATION Spec
INVARIANTS Accepted Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- WithoutClusters
  Alphabet <- Narrow
  MaxLen = 3
  MaxEvents = 2
