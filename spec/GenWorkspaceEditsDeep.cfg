SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- OneFile
  Present <- OneFile
  Names <- NoNames
  Table = "default"
  MaxBuffers = 3
  MaxDepth = 6
  WithEdits = TRUE
  WithFiles = FALSE
  WithSyntaxes = FALSE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
