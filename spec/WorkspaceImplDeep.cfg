SPECIFICATION Spec
VIEW View
INVARIANTS SameSelection SameBuffers SameListing SameCounter Checked
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- OneFile
  Design <- AllDecisions
  MaxBuffers = 3
  MaxEdits = 1
  MaxDepth = 9
