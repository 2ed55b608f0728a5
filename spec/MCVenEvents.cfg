SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Hist = TRUE
  Ls = {14}
  Cs = {30}
  Upds = {TRUE, FALSE}
  Ids_ = {"1", "2"}
  Tmax = 70
  MaxLen = 4
  MaxMod = 1
  Decs = {"optIn", "bad"}
  Starts = {5, 25}
  Durs = {0, 20}
  Lags = {0, 12}
  Ticks = {8, 32}
  Faults = {"", "f"}
  MaxEv = 2
  Emit = FALSE
