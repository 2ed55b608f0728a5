SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv
PROPERTY StepOk
CONSTANTS
  Worlds = {1}
  Rids_ = {"1", "2"}
  Ps = {20, 14}
  Tmax = 300
  MaxLen = 4
  Ticks = {10, 47}
  Faults = {"", "f"}
  Emit = FALSE
