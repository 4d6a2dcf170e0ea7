SPECIFICATION Spec
INVARIANTS Advancing Iteration Ordered
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- QuickPieces
  MaxPieces = 4
  Numbers <- Few
