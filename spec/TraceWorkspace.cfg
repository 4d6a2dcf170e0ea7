SPECIFICATION Spec
VIEW View
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames <- WorldFiles
INVARIANTS
  Selection
