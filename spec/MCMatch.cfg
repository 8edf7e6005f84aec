CONSTANTS MaxLen = 3 MaxStr = 3 BitLengths = {1, 2, 3, 4, 5, 6, 7, 8, 9}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Glob BrokenNever Segments Distinct Members Partition
