SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- TwoFiles
  Present <- OneFile
  Names <- NoNames
  Table = "default"
  MaxBuffers = 4
  MaxDepth = 6
  WithEdits = FALSE
  WithFiles = FALSE
  WithSyntaxes = FALSE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
