SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Hist = FALSE
  TInit <- Init0
  TApply <- Apply
  TClauses <- Clauses
