SPECIFICATION Spec
CONSTANTS
 Savers = {s1, s2}
 Pieces = 3
 MaxFaults = 2
 Initial = "old"
 SharedName = FALSE
 CleanReplace = TRUE
 None = None
INVARIANTS NothingHalfDone OkPublished FailClean
PROPERTY Refines
CHECK_DEADLOCK FALSE
