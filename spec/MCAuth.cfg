SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Kinds = {"poll", "create"}
  Vens = {"v1", "v2"}
  Regs = {"noreg", "reg", "raise"}
  Fps = {"ven1", "ven2", "", "raise"}
  Conns = {"ven1", "mallory", ""}
  Keys = {"ven1", "mallory"}
  Alts = {"", "content", "second"}
  Rps = {"ok", "missing"}
  Ages = {0, 11}
  Aheads = {}
  Nonces = {"n1", "n2"}
  Fls = {TRUE, FALSE}
  Vls = {TRUE, FALSE}
  Verifies = {TRUE, FALSE}
  Lags = {0}
  Signs = {"vtn"}
  Waits = {6}
  Tls = {TRUE}
  MaxLen = 3
  MaxBatch = 1
  MaxUsed = 3
  Emit = FALSE
