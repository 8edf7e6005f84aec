CONSTANTS MaxSess = 1 MaxCalls = 2 Times = {0} Disks = "some" Rots = {2} Dels = {2} Offs = {TRUE, FALSE} Ans = "all" Gen = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Typed Signed Fresh Consistent Order CrossSession CacheKept Stored Complete Bounded Local Found
PROPERTIES StepCache StepRoot StepMonotonic StepOrder StepDeleg
ACTION_CONSTRAINT Emit
