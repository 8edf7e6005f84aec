CONSTANTS MaxOps = 6 MaxSigs = 2 Thrs = {1, 2} Kinds = {"roles"} Gen = FALSE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound Complete KeysUsed Once OneSig
PROPERTIES Apart Monotone Thresholds
