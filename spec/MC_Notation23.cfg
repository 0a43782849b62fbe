SPECIFICATION Spec
CONSTANTS D = 2
 N = 3
 PNums = {1, 2, 10, 11, 124}
INVARIANT Reads
