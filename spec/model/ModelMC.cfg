SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Grids = {3, 5}
  Given = {1, 2}
  Emitting = FALSE
INVARIANTS Typed Function
PROPERTIES RefusedKeeps KeepsGeometry RestoreExact OnlyFiner Determined
CHECK_DEADLOCK FALSE
