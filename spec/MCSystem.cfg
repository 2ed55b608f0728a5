SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Worlds = {"one", "two"}
  MaxLen = 5
  Started = FALSE
  Emit = FALSE
  Hist = TRUE
