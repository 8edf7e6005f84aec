CONSTANTS MaxList = 2 Limits = {0, 1, 2, 5} Names = {"a", "b"} Gen = FALSE Sample = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Once Limited Delegated
ACTION_CONSTRAINT Emit
