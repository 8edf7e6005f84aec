CONSTANTS MaxSess = 3 MaxCalls = 1 Times = {0, 2} Disks = "empty" Rots = {2} Dels = {2} Offs = {TRUE, FALSE} Ans = "all" Gen = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Typed Signed Fresh Consistent Order CrossSession CacheKept Stored Complete Bounded Local Found
PROPERTIES StepCache StepRoot StepMonotonic StepOrder StepDeleg
