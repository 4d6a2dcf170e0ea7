SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- Large
  MaxLen = 6
INVARIANTS
  Printed
  Grounded
