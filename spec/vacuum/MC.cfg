SPECIFICATION Spec
CONSTANTS
  MaxEvals = 6
  MaxStages = 3
  Skip0 = 2
  Grows = {0, 3}
  TraceFile = "none"
INVARIANTS FixedNever InOrder Fresh AlwaysKnown
PROPERTIES NeverOff OnlyWhenReady FirstKnows SoftStart
CHECK_DEADLOCK FALSE
