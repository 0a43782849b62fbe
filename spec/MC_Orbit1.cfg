SPECIFICATION Spec
CONSTANTS D = 1
 M = 6
 XS = {0,1,2,3,4,5,6}
INVARIANTS StdInvariant StdLeast StdReached PointStd
CHECK_DEADLOCK FALSE
