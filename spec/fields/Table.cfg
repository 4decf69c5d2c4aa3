SPECIFICATION Spec
CONSTANTS
  Part = 1
  MaxSteps = 0
  MaxP = 6
  MaxZ = 5
  MaxR = 3
  MaxC = 1
  Currents <- CurSmall
  Gen = TRUE
  Broken = "nothing"
INVARIANTS MirrorIsRight Onto EmitTables
CHECK_DEADLOCK FALSE
