CONSTANTS Sessions = 1 Coarse = TRUE Crashes = FALSE Gen = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Undisturbed Sets Recovers Verified
ACTION_CONSTRAINT Emit
