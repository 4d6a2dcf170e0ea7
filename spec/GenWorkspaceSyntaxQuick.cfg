SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- OneFile
  Present <- OneFile
  Names <- SyntaxNames
  Table = "default"
  MaxBuffers = 2
  MaxDepth = 4
  WithEdits = FALSE
  WithFiles = FALSE
  WithSyntaxes = TRUE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
