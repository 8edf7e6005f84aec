CONSTANTS Sessions = 1 Coarse = FALSE Crashes = TRUE Gen = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Undisturbed Sets Recovers Verified
