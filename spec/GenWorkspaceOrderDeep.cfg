SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- TwoFiles
  Present <- OneFile
  Names <- NoNames
  Table = "default"
  MaxBuffers = 5
  MaxDepth = 8
  WithEdits = FALSE
  WithFiles = FALSE
  WithSyntaxes = FALSE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
