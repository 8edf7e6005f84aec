CONSTANTS Writer = "any" MaxSteps = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Noticed
