CONSTANTS Sessions = 2 Coarse = TRUE Crashes = FALSE Gen = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Undisturbed Sets Recovers Verified
