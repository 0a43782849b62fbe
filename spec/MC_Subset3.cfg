SPECIFICATION Spec
CONSTANTS Dm = 2
 Nn = 3
 MaxDepth = 2
INVARIANTS NeighbourOk DivideOk ActOk
