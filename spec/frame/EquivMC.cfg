SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Emitting = FALSE
INVARIANTS Closed SameSurface SymmetryKept Canonical
CHECK_DEADLOCK FALSE
