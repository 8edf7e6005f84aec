CONSTANTS Repos = {"1", "2"} MaxMaps = 3 Thrs = {1, 2} Kinds = {"none", "A", "B"} Gen = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Same Agreement Tolerant First Reason
PROPERTIES Ends
