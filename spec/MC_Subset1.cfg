SPECIFICATION Spec
CONSTANTS Dm = 2
 Nn = 2
 MaxDepth = 3
INVARIANTS NeighbourOk DivideOk ActOk
