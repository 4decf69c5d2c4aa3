SPECIFICATION Spec
CONSTANTS
  Emitting = TRUE
INVARIANTS Defined EndsAtOne TablesMet Emit
CHECK_DEADLOCK FALSE
