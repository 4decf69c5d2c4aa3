SPECIFICATION Spec
CONSTANTS
  MaxNs = 40
  MaxPoints = 60
  TraceFile = "none"
INVARIANTS SchemeGood PointsGood
CHECK_DEADLOCK FALSE
