CONSTANTS MaxSess = 1 MaxCalls = 1 Times = {0} Disks = "some" Rots = {2} Dels = {2} Offs = {FALSE} Ans = "few" MaxEnv = 1 AnyTime = FALSE Gen = TRUE
SPECIFICATION Spec2
VIEW View2
CHECK_DEADLOCK FALSE
INVARIANTS Typed Signed Fresh Consistent Order CrossSession Stored2 Complete Bounded Found
PROPERTIES StepCache2 StepKeep2 StepRoot2 StepMonotonic2 StepOrder2 StepDeleg2 Apart2
ACTION_CONSTRAINT Emit2
