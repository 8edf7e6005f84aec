CONSTANTS N = 4 Gen = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Held Given
PROPERTIES Ends
ACTION_CONSTRAINT Emit
