----------------------------- MODULE MC_Subset -----------------------------
(* Design model: facet subsets under repeated mapping into cubes, taking a  *)
(* fraction, crossing to the neighbour cube and isometries.  The boxes of   *)
(* the abstract operations agree with the set definitions, and any two      *)
(* reachable sets are nested or disjoint.                                   *)
EXTENDS SubsetGeo
CONSTANTS Dm, Nn, MaxDepth
VARIABLES s
U == Exp(Nn, MaxDepth + 1)
B(t) == FBox(Dm, Nn, t, MaxDepth + 1)
Abs(fc, q, v) == Mat([j \in 1..Dm |-> IF j = fc THEN v ELSE q[IF j < fc THEN j ELSE j - 1]])
Rel(fc, c) == Mat([m \in 1..(Dm - 1) |-> c[IF m < fc THEN m ELSE m + 1]])
Init == s \in {<<fc, v, <<>>>> : fc \in 1..Dm, v \in {0, 1}}
EndC(v) == IF v = 0 THEN 0 ELSE Nn - 1
MapTo == \E c \in GridC(Dm, Nn) : c[s[1]] = EndC(s[2]) /\ Len(s[3]) < MaxDepth /\ s' = <<s[1], s[2], <<Rel(s[1], c)>> \o s[3]>>
Fraction == s[3] # <<>> /\ s' = <<s[1], s[2], Tail(s[3])>>
Cross == s' = <<s[1], 1 - s[2], s[3]>>
Rot == \E a \in CubeMaps(Dm) :
         LET i == CHOOSE i \in 1..Dm : a[1][i] = s[1]
             nv == IF a[2][i] = 1 THEN 1 - s[2] ELSE s[2]
             t(q) == Rel(i, ActCube(a, Nn, Abs(s[1], q, 0)))
         IN s' = <<i, nv, Mat([k \in 1..Len(s[3]) |-> t(s[3][k])])>>
Next == MapTo \/ Fraction \/ Cross \/ Rot
Spec == Init /\ [][Next]_s
\* the neighbour and fraction by definition are single sets of the family
NeighbourOk == FNeighbours(B(s), U, s[1]) = {<<Mat([j \in 1..Dm |-> IF j # s[1] THEN 0 ELSE IF s[2] = 0 THEN -1 ELSE 1]), B(<<s[1], 1 - s[2], s[3]>>)>>}
DivideOk == LET r == FDivide(B(s), U, s[1], Nn) IN
            IF s[3] = <<>> THEN Cardinality(r) = Exp(Nn, Dm - 1) /\ \A x \in r : x[2] = B(s)
            ELSE r = {<<Abs(s[1], s[3][1], EndC(s[2])), B(<<s[1], s[2], Tail(s[3])>>)>>}
BoxM2(a) == LET i == CHOOSE i \in 1..Dm : a[1][i] = s[1]
                nv == IF a[2][i] = 1 THEN 1 - s[2] ELSE s[2]
            IN B(<<i, nv, Mat([k \in 1..Len(s[3]) |-> Rel(i, ActCube(a, Nn, Abs(s[1], s[3][k], 0)))])>>)
ActOk == \A a \in CubeMaps(Dm) : BoxM2(a) = BoxMap(a, U, B(s))
============================================================================
