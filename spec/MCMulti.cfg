SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Worlds = {"oo", "oe", "ee"}
  Ids = {"1", "2"}
  MaxLen = 3
  Emit = FALSE
