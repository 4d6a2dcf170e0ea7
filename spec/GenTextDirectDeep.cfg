SPECIFICATION Spec
VIEW View
INVARIANT PositionsConsistent
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- DeepPieces
  Seeds <- DeepSeeds
  MaxLen = 3
  WithQueries = TRUE
  WithOutside = TRUE
  Direct = TRUE
