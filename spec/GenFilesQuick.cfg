SPECIFICATION Spec
VIEW View
INVARIANTS Consistent Sound FailuresKeep RoundTrip
CONSTRAINT Testable
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Contents <- QuickContents
  Targets <- AllTargets
  MaxDepth = 4
  MaxSteps = 3
  WithFaults = TRUE
  WithGroups = TRUE
