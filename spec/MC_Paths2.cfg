SPECIFICATION Spec
CONSTANTS States = 2
 Sparse = 4
INVARIANT Exact
