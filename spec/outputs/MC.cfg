SPECIFICATION Spec
CONSTANTS
  MaxVer = 2
  MaxOps = 7
  Random = FALSE
  Emitting = FALSE
INVARIANTS NoDeadEnd
PROPERTIES ContentKept NeverFromNothing
CHECK_DEADLOCK FALSE
