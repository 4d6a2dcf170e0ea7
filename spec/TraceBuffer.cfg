SPECIFICATION Spec
VIEW View
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
