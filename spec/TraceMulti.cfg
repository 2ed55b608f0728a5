SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  TInit <- Init0
  TApply <- Apply
  TClauses <- Clauses
