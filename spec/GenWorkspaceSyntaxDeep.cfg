SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- OneFile
  Present <- OneFile
  Names <- SyntaxNames
  Table = "user"
  MaxBuffers = 3
  MaxDepth = 5
  WithEdits = FALSE
  WithFiles = FALSE
  WithSyntaxes = TRUE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
