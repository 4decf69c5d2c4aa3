SPECIFICATION Spec
CONSTANTS
  MaxLines = 6
  MaxOps = 2
  Windings <- WSmall
  Ids <- IdsSmall
  Gen = FALSE
  Broken = "nothing"
INVARIANTS EveryCoilOnce EveryPointOnce FileOrder OneCircuitPerId NothingKeptOnRefusal ReadOnlyIfEnded
PROPERTIES AmpereTurns Terminates
CHECK_DEADLOCK FALSE
