SPECIFICATION Spec
VIEW View
INVARIANTS SameSelection SameBuffers SameListing SameCounter
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- OneFile
  Design <- WithoutPlaceholder
  MaxBuffers = 3
  MaxEdits = 1
  MaxDepth = 6
