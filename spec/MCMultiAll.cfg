CONSTANTS Repos = {"1", "2", "3"} MaxMaps = 2 Thrs = {1, 2, 3} Kinds = {"none", "A", "AA", "B"} Gen = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Agreement Tolerant First Reason
ACTION_CONSTRAINT Emit
