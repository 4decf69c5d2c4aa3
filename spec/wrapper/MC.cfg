SPECIFICATION Spec
CONSTANTS
 Surfaces = {1, 2}
 Resolutions <- Res
 Params = {"phiedge", "curtor"}
 Readers = {"aspect"}
 MaxVer = 3
 MaxOps = 3
 Random = FALSE
 Emitting = FALSE
INVARIANTS FreshResults NoStale WoutNeverSolves FailureRetries
PROPERTY SolveIffChanged
CHECK_DEADLOCK FALSE
