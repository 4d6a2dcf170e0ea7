SPECIFICATION Spec
VIEW View
INVARIANTS Consistent Sound FailuresKeep RoundTrip
CONSTRAINT Testable
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Contents <- DeepContents
  Targets <- AllTargets
  MaxDepth = 5
  MaxSteps = 3
  WithFaults = TRUE
  WithGroups = TRUE
