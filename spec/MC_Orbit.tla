------------------------------ MODULE MC_Orbit -----------------------------
(* Design model: the links of the cube under the generators of the group of *)
(* base maps.  Every link reachable from another has the same standard form;*)
(* the fast standard form is the least element of the orbit.                *)
EXTENDS Orbit
CONSTANTS D, M, XS
VARIABLES lk, std0
CM == CubeMaps(D)
AM == Maps(D)
Pts == [1..D -> XS]
Swap(j) == <<[k \in 1..D |-> IF k = j THEN j + 1 ELSE IF k = j + 1 THEN j ELSE k], [k \in 1..D |-> 0], 0>>
Flip == <<[k \in 1..D |-> k], [k \in 1..D |-> IF k = 1 THEN 1 ELSE 0], 0>>
Gens == {Swap(j) : j \in 1..(D - 1)} \cup {Flip, Rev(Id(D))}
Init == lk \in {<<x, y>> : x \in Pts, y \in Pts} /\ std0 = LStd(lk, M, CM)
Next == \E g \in Gens : lk' = ActLink(g, lk, M) /\ UNCHANGED std0
Spec == Init /\ [][Next]_<<lk, std0>>
StdInvariant == LStd(lk, M, CM) = std0
StdLeast == LinkLe(std0, lk)
StdReached == lk = std0 => IsLStd(lk, std0, M, AM)
PointStd == IsPStd(PStd(lk[1], M), lk[1], M, CM)
============================================================================
