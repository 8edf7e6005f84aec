CONSTANTS Writer = "rename" MaxSteps = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Atomic Clean Result
