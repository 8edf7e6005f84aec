CONSTANTS Gen = TRUE Small = FALSE Mode = "life"
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Harmless Accepted Kept Emit
PROPERTIES Ends
