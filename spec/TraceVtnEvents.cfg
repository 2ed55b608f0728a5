SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Hist = FALSE
  TInit <- InitOf
  TApply <- Apply
  TClauses <- Clauses
