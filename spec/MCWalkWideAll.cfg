CONSTANTS MaxList = 3 Limits = {0, 1, 2, 3, 8} Names = {"a", "b", "c"} Gen = TRUE Sample = 4000
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Once Limited Delegated
ACTION_CONSTRAINT Emit
