SPECIFICATION Spec
CONSTANTS States = 1
 Sparse = 1
INVARIANT Exact
