SPECIFICATION Spec
INVARIANTS Advancing Iteration Ordered
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- DeepPieces
  MaxPieces = 5
  Numbers <- More
