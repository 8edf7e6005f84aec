CONSTANTS MaxList = 3 Limits = {2, 8} Names = {"a", "b", "c"} Gen = TRUE Sample = 1500
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Once Limited Delegated
ACTION_CONSTRAINT Emit
