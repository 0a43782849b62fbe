SPECIFICATION Spec
CONSTANTS D = 2
 M = 4
 XS = {0,1,2,3,4}
INVARIANTS StdInvariant StdLeast StdReached PointStd
CHECK_DEADLOCK FALSE
