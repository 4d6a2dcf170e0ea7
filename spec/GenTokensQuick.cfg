SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- Small
  MaxLen = 5
INVARIANTS
  Printed
  Grounded
