SPECIFICATION Spec
CONSTANTS
  Bases = {1}
  Once = {7, 8}
  Fields = {"grid", "budget", "bound"}
  NI = 1
  NO = 2
  NF = 1
  MaxOps = 6
  MaxDepth = 2
  Memory = "none"
  Share = "none"
  Emitting = FALSE
INVARIANTS Determined Recorded Agree NoOutputOfFailures
PROPERTIES LeavesAlone
CHECK_DEADLOCK FALSE
