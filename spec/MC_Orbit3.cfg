SPECIFICATION Spec
CONSTANTS D = 3
 M = 2
 XS = {0,1,2}
INVARIANTS StdInvariant StdLeast StdReached PointStd
CHECK_DEADLOCK FALSE
