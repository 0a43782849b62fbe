----------------------------- MODULE MC_Group ------------------------------
(* Design model for C01: words over generators of the group.  The state is  *)
(* a pair (g, h) of independently reached elements; the invariants are the  *)
(* group axioms, the action laws and the order of the group.                *)
EXTENDS Iso, TLC
CONSTANT D
VARIABLES g, h

Swap(k)  == <<[i \in 1..D |-> IF i = k THEN k + 1 ELSE IF i = k + 1 THEN k ELSE i], [i \in 1..D |-> 0], 0>>
Flip1    == <<[i \in 1..D |-> i], [i \in 1..D |-> IF i = 1 THEN 1 ELSE 0], 0>>
Gens     == {Swap(k) : k \in 1..(D - 1)} \cup {Flip1, Rev(Id(D))}

Init == g = Id(D) /\ h = Id(D)
Next == \E a \in Gens : (g' = Mul(a, g) /\ h' = h) \/ (h' = Mul(h, a) /\ g' = g)
Spec == Init /\ [][Next]_<<g, h>>

X == [i \in 1..D |-> 2 * i - 1]       \* a point with distinct, non-complementary coordinates (scale 2D+3)
M == 2 * D + 3
Axioms ==
  /\ IsMap(g)
  /\ Mul(g, Inv(g)) = Id(D) /\ Mul(Inv(g), g) = Id(D)
  /\ Mul(Id(D), g) = g /\ Mul(g, Id(D)) = g
  /\ \A a \in Gens : Mul(Mul(a, g), h) = Mul(a, Mul(g, h))
  /\ Inv(Mul(g, h)) = Mul(Inv(h), Inv(g))
  /\ Conj(Mul(g, h), h) = Mul(Conj(g, h), h)
  /\ Rev(Rev(g)) = g /\ Mul(Rev(g), h) = Rev(Mul(g, h))
Actions ==
  /\ ActX(Mul(g, h), X, M) = ActX(g, ActX(h, X, M), M)
  /\ ActVec(Mul(g, h), X) = ActVec(g, ActVec(h, X))
  /\ ActCube(Mul(g, h), M, X) = ActCube(g, M, ActCube(h, M, X))
  /\ ActStart(Mul(g, h), X, 2) = ActStart(g, ActStart(h, X, 2), 2)
  /\ ActT(Mul(g, h), 3, 7) = ActT(g, ActT(h, 3, 7), 7)
  /\ ActCnum(Mul(g, h), 9, 2) = ActCnum(g, 9, ActCnum(h, 9, 2))
Powers == /\ Pow(g, 0) = Id(D) /\ Pow(g, 1) = g /\ Pow(g, 2) = Mul(g, g)
          /\ Pow(g, -3) = Inv(Mul(g, Mul(g, g))) /\ Pow(g, 5) = Mul(Pow(g, 2), Pow(g, 3))
\* the reachable set is the whole group, so its size is 2^(d+1) d! for each component
Order == TLCGet("distinct") = NMaps(D) * NMaps(D)
============================================================================
