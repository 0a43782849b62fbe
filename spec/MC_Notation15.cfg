SPECIFICATION Spec
CONSTANTS D = 1
 N = 5
 PNums = {1, 2, 10, 11, 124}
INVARIANT Reads
