SPECIFICATION Spec
CONSTANTS
  TraceFile = "none"
  Emitting = FALSE
INVARIANTS RefusedEarly OnlyMatching StartsThere FixedEdge OnlyTheFirstStage
PROPERTY Answered
CHECK_DEADLOCK FALSE
