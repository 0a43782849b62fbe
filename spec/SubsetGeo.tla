----------------------------- MODULE SubsetGeo -----------------------------
(* Operations on points and facet subsets, defined on the sets they denote. *)
EXTENDS FacetSet, Orbit, TLC

\* ---- points: numerators x over D
PMapTo(n, c, D, x) == Mat([j \in 1..Len(x) |-> x[j] + c[j] * D])          \* over n*D
Affine(x, D, sn, sd, sh, shD) == \* x*scale + shift, over D*sd*shD
  Mat([j \in 1..Len(x) |-> x[j] * sn * shD + sh[j] * D * sd])
\* integer cubes containing the point, among those with coordinates in R
InCube(x, D, c) == \A j \in 1..Len(x) : c[j] * D <= x[j] /\ x[j] <= (c[j] + 1) * D
FloorR(x, D, j) == x[j] \div D
\* per coordinate candidates: floor - 1 and floor
RECURSIVE CubesFrom(_, _, _)
CubesFrom(x, D, k) == IF k = 0 THEN {<<>>}
                      ELSE UNION {{Append(c, v) : v \in {FloorR(x, D, k) - 1, FloorR(x, D, k)}} : c \in CubesFrom(x, D, k - 1)}
CubesOf(x, D) == {c \in CubesFrom(x, D, Len(x)) : InCube(x, D, c)}
Minus(x, D, c) == Mat([j \in 1..Len(x) |-> x[j] - c[j] * D])
PNeighbours(x, D) == {<<c, Minus(x, D, c)>> : c \in {k \in CubesOf(x, D) : \E j \in 1..Len(k) : k[j] # 0}}
PDivide(x, D, n) == LET y == Mat([j \in 1..Len(x) |-> n * x[j]]) IN
                    {<<c, Minus(y, D, c)>> : c \in {k \in CubesOf(y, D) : \A j \in 1..Len(k) : k[j] >= 0 /\ k[j] < n}}
FaceDim(x, D) == Cardinality({j \in 1..Len(x) : x[j] # 0 /\ x[j] # D})

\* ---- facet subsets through their boxes.  Side <<lo, hi>>: open interval, or a single value when lo = hi
BScale(A, k) == Mat([j \in 1..Len(A) |-> <<A[j][1] * k, A[j][2] * k>>])
BMove(A, c, U) == Mat([j \in 1..Len(A) |-> <<A[j][1] + c[j] * U, A[j][2] + c[j] * U>>])
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SideCut(s, t) == IF s[1] = s[2] THEN s ELSE IF t[1] = t[2] THEN t ELSE <<Max2(s[1], t[1]), Min2(s[2], t[2])>>
BoxCut(A, B) == Mat([j \in 1..Len(A) |-> SideCut(A[j], B[j])])
\* the cube c of side U on one side of the facet: all sides closed in the facet direction, open elsewhere
CubeSide(c, j, U) == <<c[j] * U, (c[j] + 1) * U>>
\* portion of the set with box A (unit U) in the cube c; facet coordinate fc
Shares(A, c, U, fc) == /\ A[fc][1] >= c[fc] * U /\ A[fc][1] <= (c[fc] + 1) * U
                       /\ \A j \in 1..Len(A) : j # fc => Max2(A[j][1], c[j] * U) < Min2(A[j][2], (c[j] + 1) * U)
Portion(A, c, U, fc) == Mat([j \in 1..Len(A) |-> IF j = fc THEN <<A[j][1] - c[j] * U, A[j][1] - c[j] * U>>
                              ELSE <<Max2(A[j][1], c[j] * U) - c[j] * U, Min2(A[j][2], (c[j] + 1) * U) - c[j] * U>>])
Steps(d) == {Mat(f) : f \in [1..d -> {-1, 0, 1}]}
FNeighbours(A, U, fc) == {<<c, Portion(A, c, U, fc)>> : c \in {v \in Steps(Len(A)) : (\E j \in 1..Len(v) : v[j] # 0) /\ Shares(A, v, U, fc)}}
GridC(d, n) == {Mat(f) : f \in [1..d -> 0..(n - 1)]}
FDivide(A, U, fc, n) == LET B == BScale(A, n) IN {<<c, Portion(B, c, U, fc)>> : c \in {v \in GridC(Len(A), n) : Shares(B, v, U, fc)}}
============================================================================
