SPECIFICATION Spec
CONSTANTS
 MaxM = 4
 MaxN = 2
 MaxOps = 3
 Random = FALSE
 Emitting = FALSE
 Ways = {"static", "rebuild", "schedule", "solver", "interpolate"}
INVARIANTS Shape Survivors UpDownIdentity Confluent
PROPERTIES SharedKept NewAreZero
CHECK_DEADLOCK FALSE
