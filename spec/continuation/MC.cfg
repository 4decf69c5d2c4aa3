SPECIFICATION Spec
CONSTANTS
 MaxSteps = 2
 NsVals = {5, 7}
 MpolVals = {3, 4}
 NtorVals = {0, 1}
 Emitting = FALSE
INVARIANTS OnePerStep InOrder Chained EndsAtRequest NothingBeforeRefusal FailureEnds
CHECK_DEADLOCK FALSE
