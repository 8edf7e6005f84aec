CONSTANTS MaxLen = 2 MaxStr = 3 BitLengths = {1, 3, 4, 5}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Glob BrokenNever Segments Distinct Members Partition
