SPECIFICATION Spec
CONSTANTS
  Entries = {"file", "object", "struct", "model"}
  MaxEdits = 1
  MaxAttempts = 1
  Broken = "nothing"
  Printing = TRUE
INVARIANTS TypeOK NeverSilent NeverNeedless BasesValid SameJudgement FileStricter
PROPERTIES Answered
CHECK_DEADLOCK FALSE
