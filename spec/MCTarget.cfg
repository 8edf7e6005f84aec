CONSTANTS Gen = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneVersion Good
PROPERTIES DownFound Framed Stored Quiet
ACTION_CONSTRAINT Emit
