SPECIFICATION Spec
CONSTANTS
  Dirs = {1}
  Names = {"a", "a.v2"}
  Problems = {"p1", "p2", "fails", "garbage"}
  MaxOps = 3
  Naming = "exact"
  Order = "namefirst"
  Status = "honest"
  Emitting = FALSE
INVARIANTS Honest NothingInVain
PROPERTIES Own Kept Untouched
CHECK_DEADLOCK FALSE
