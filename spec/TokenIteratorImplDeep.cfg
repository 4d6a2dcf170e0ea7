SPECIFICATION Spec
INVARIANTS Accepted Located Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Design <- AllDecisions
  Alphabet <- Wide
  MaxLen = 4
  MaxEvents = 2
