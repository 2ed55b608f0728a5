SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Kinds = {"query", "create", "cancelreg", "regreport", "createdreport", "registeredreport", "update", "poll", "reqevent", "createdevent", "bad", "resp", "distribute", "createopt"}
  Vens = {"v1", "v2"}
  Modes = {"compact", "full", "none"}
  Lookups = {TRUE, FALSE}
  Exts = {TRUE, FALSE}
  Bares = {FALSE}
  Knows = {"noreg", "reg", "raise"}
  MaxLen = 3
  MaxBatch = 1
  MaxReps = 1
  MaxRds = 1
  Wrong = TRUE
  Emit = FALSE
