CONSTANTS Times = {0, 2, 4} Gen = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Typed Signed Fresh Consistent Order Reasons EmitRefused
PROPERTIES StepRoot StepMonotonic StepOrder StepDeleg StepOne
ACTION_CONSTRAINT EmitStep
