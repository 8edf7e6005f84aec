CONSTANTS MaxOps = 4 MaxSigs = 2 Thrs = {1, 2} Kinds = {"roles", "succinct"} Gen = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound Complete KeysUsed Once OneSig
PROPERTIES Apart Monotone Thresholds
ACTION_CONSTRAINT Emit
