CONSTANTS Gen = TRUE Small = FALSE Mode = "cache"
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Harmless Accepted Kept Emit Reused
