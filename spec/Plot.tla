------------------------------- MODULE Plot --------------------------------
(* What a picture of a curve shows.  Coordinates are integers over U n^l,   *)
(* l the level of the fine line.  For pattern q: the coarse line through    *)
(* the centres of the cubes, and inside every cube k the fine line through  *)
(* the centres of the level-l cubes, in the order of the curve.             *)
EXTENDS Curve

\* centre of a level-j cube, over U n^l (U even)
Centre(C, c, j, l, U) == Mat([a \in 1..C.d |-> (2 * c[a] + 1) * (U \div 2) * Exp(C.n, l - j)])
Coarse(C, q, l, U) == Mat([k \in 1..Genus(C) |-> Centre(C, DeepCube(C, Root(C, q), <<k>>), 1, l, U)])
\* fine line of the k-th fraction: the level-l cubes number (k-1)G^(l-1) .. kG^(l-1)-1
Fine(C, q, k, l, U) == LET M == Exp(Genus(C), l - 1)
                       IN Mat([t \in 1..M |-> Centre(C, DeepCube(C, Root(C, q), Addr(Genus(C), (k - 1) * M + t - 1, l)), l, l, U)])
\* sampled points of the fine line only (long lines)
FineAt(C, q, k, l, U, t) == Centre(C, DeepCube(C, Root(C, q), Addr(Genus(C), (k - 1) * Exp(Genus(C), l - 1) + t - 1, l)), l, l, U)
Starts(line, w) == Len(line) >= Len(w) /\ \A z \in 1..Len(w) : line[z] = w[z]
============================================================================
