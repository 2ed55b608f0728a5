SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Ids = {"a", "b"}
  Bads = {"", "type"}
  CreateAns = {"ok", "refused"}
  CancelAns = {"ok", "noid", "refused"}
  Lags = {0, 2}
  Waits = {1, 3}
  MaxLen = 4
  MaxBatch = 2
  Emit = FALSE
