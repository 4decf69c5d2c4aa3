SPECIFICATION Spec
CONSTANTS
  Part = 2
  MaxSteps = 2
  MaxP = 2
  MaxZ = 3
  MaxR = 2
  MaxC = 2
  Currents <- CurSmall
  Gen = FALSE
  Broken = "nothing"
INVARIANTS Linear GridExact PathFree RefusedHoldsNothing
CHECK_DEADLOCK FALSE
