SPECIFICATION Spec
CONSTANTS Dm = 3
 Nn = 2
 MaxDepth = 2
INVARIANTS NeighbourOk DivideOk ActOk
