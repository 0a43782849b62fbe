SPECIFICATION Spec
CONSTANTS D = 2
 N = 2
 PNums = {1, 2, 10, 11, 124}
INVARIANT Reads
