SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- TwoFiles
  Present <- OneFile
  Names <- SomeNames
  Table = "default"
  MaxBuffers = 2
  MaxDepth = 4
  WithEdits = FALSE
  WithFiles = TRUE
  WithSyntaxes = FALSE
INVARIANTS
  Selection
  Unique
  Cycles
  AddClose
  Idempotent
PROPERTIES
  Isolated
  IdsStick
