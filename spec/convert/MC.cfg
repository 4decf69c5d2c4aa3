SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxDepth = 2
  MaxSteps = 9
  Random = FALSE
  Emitting = FALSE
INVARIANTS NothingLeft CwdBack Disjoint
PROPERTIES NoSwallow
CHECK_DEADLOCK FALSE
