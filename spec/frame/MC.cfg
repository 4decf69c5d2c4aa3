SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
  Emitting = FALSE
  MaxSteps = 2
  TraceFile = "none"
INVARIANTS FixedEdge Involution NeverTwice SymmetricIdempotent ShiftedIsCanonical SameSurface OneFrame SameVector
CHECK_DEADLOCK FALSE
