CONSTANTS Gen = TRUE Small = TRUE Mode = "cache"
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Harmless Accepted Kept Emit Reused
