SPECIFICATION Spec
CONSTANTS
 MaxVer = 3
 MaxOps = 12
 Random = FALSE
 Emitting = FALSE
INVARIANTS NoDeadEnd
PROPERTIES ContentKept NeverSilent NeverSilentSkew
CHECK_DEADLOCK FALSE
