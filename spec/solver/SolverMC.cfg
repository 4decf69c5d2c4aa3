SPECIFICATION Spec
CONSTANTS
 GapStore = 1
 GapSlow = 2
 IterSlow = 3
 SlowThr = 4
 Leash852 = 2
 LeashPar = 3
 LeashRob = 2
 J1 = 2
 J2 = 4
 J3 = 6
 TauLen = 1
 NsMin = 3
 FsqInit = 4
 Styles = {"v852"}
 NsSeqs <- NsSeqsA
 NiterVal = 5
 IntrOn = TRUE
 Langs = {"cpp", "py"}
VIEW View
INVARIANTS RefusedUntouched TypeOK Honest SameGeometry LastStage Budget Bounded EscalatedStep NeverPast75
PROPERTIES Rollback CheckpointRule DeltMonotone
CHECK_DEADLOCK FALSE
