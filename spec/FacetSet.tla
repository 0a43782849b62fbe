------------------------------ MODULE FacetSet -----------------------------
(* Subsets of the cube used as gates.                                       *)
(*  - points: numerators over a denominator                                 *)
(*  - facet subsets <<coordinate, value, cubes>>: relatively open cube of    *)
(*    side n^-Len(cubes) inside the facet x_coordinate = value; cubes is a   *)
(*    nested sequence of (d-1)-dimensional n-cubes in facet coordinates.     *)
(* A facet subset denotes an open box: per coordinate <<lo, hi>> over n^L;   *)
(* the facet coordinate is the single value <<v, v>>.                       *)
EXTENDS Iso

\* box of the facet subset, numerators at scale n^L (L >= nesting depth)
RECURSIVE Pos(_, _, _)
Pos(cubes, n, j) == IF cubes = <<>> THEN 0
                    ELSE Head(cubes)[j] * Exp(n, Len(cubes) - 1) + Pos(Tail(cubes), n, j)
FBox(d, n, s, L) ==
  LET fc == s[1]
      dep == Len(s[3])
      w == Exp(n, L - dep)
  IN [j \in 1..d |-> IF j = fc THEN <<s[2] * Exp(n, L), s[2] * Exp(n, L)>>
                     ELSE LET m == IF j < fc THEN j ELSE j - 1
                              lo == Pos(s[3], n, m)
                          IN <<lo * w, (lo + 1) * w>>]
\* intersection of (relatively open) boxes
SideMeets(a, b) == IF a[1] = a[2] THEN (IF b[1] = b[2] THEN a[1] = b[1] ELSE b[1] < a[1] /\ a[1] < b[2])
                   ELSE IF b[1] = b[2] THEN a[1] < b[1] /\ b[1] < a[2]
                   ELSE a[1] < b[2] /\ b[1] < a[2]
BoxMeets(A, B) == \A j \in 1..Len(A) : SideMeets(A[j], B[j])
BoxShift(A, sh) == [j \in 1..Len(A) |-> <<A[j][1] + sh[j], A[j][2] + sh[j]>>]
BoxMap(a, m, A) == [i \in 1..Len(A) |-> LET s == A[a[1][i]] IN IF a[2][i] = 1 THEN <<m - s[2], m - s[1]>> ELSE s]
MaxDep(S) == CHOOSE x \in S : \A y \in S : y <= x
Box1(d, n, s) == FBox(d, n, s, Len(s[3]))
============================================================================
