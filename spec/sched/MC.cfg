SPECIFICATION Spec
CONSTANTS
  T = 3
  Iterations = 2
  Drops = {0, 1, 2, 3, 4, 5, 6, 7}
  Modes = {"free", "serial"}
  MaxLists = 2
  Gen = FALSE
INVARIANTS ScheduleFree Report
CHECK_DEADLOCK FALSE
