SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Hist = TRUE
  Vens = {"A", "B"}
  Ids = {"1", "2"}
  Tmax = 3
  MaxLen = 7
  MaxMod = 1
  Modes = {"sync"}
  DModes = {"none", "gate"}
  Starts = {1, 2}
  Prios = {0}
  MaxProcs = 1
  Emit = FALSE
