SPECIFICATION Spec
VIEW View
INVARIANT PositionsConsistent
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- QuickPieces
  Seeds <- QuickSeeds
  MaxLen = 3
  WithQueries = TRUE
  WithOutside = FALSE
  Direct = FALSE
