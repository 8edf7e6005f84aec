CONSTANTS MaxList = 1 Limits = {0, 1, 2, 3, 5} Names = {"a", "b", "c"} Gen = FALSE Sample = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Once Limited Delegated
ACTION_CONSTRAINT Emit
