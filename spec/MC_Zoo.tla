------------------------------- MODULE MC_Zoo ------------------------------
(* The reference constructions of the catalogue are themselves curves:      *)
(* every cell of the grid once, consecutive cells share a side, a cell of   *)
(* one level contains the cells of the next one.                            *)
EXTENDS Zoo
VARIABLES kind, lev, t
Levels == [hilbert |-> 5, peano |-> 3, peano5 |-> 2]
BaseOf(k) == CASE k = "hilbert" -> 2 [] k = "peano" -> 3 [] OTHER -> 5
At(k, l, s) == IF k = "hilbert" THEN HilbertAt(l, s) ELSE PeanoCell(BaseOf(k), l, s)
Size(k, l) == Exp(BaseOf(k) * BaseOf(k), l)
Init == kind \in DOMAIN Levels /\ lev \in 1..Levels[kind] /\ t = 0
Next == t + 1 < Size(kind, lev) /\ t' = t + 1 /\ UNCHANGED <<kind, lev>>
Spec == Init /\ [][Next]_<<kind, lev, t>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
InGrid == LET c == At(kind, lev, t) IN \A j \in 1..2 : c[j] \in 0..(Exp(BaseOf(kind), lev) - 1)
UnitStep == t = 0 \/ LET a == At(kind, lev, t - 1)  b == At(kind, lev, t) IN Abs(a[1] - b[1]) + Abs(a[2] - b[2]) = 1
\* Hilbert's levels alternate between the two orientations, so nesting is up to a transposition there
Nested == lev = 1 \/ kind = "hilbert" \/
   LET n == BaseOf(kind)  a == At(kind, lev, t)  b == At(kind, lev - 1, t \div (n * n)) IN \A j \in 1..2 : a[j] \div n = b[j]
Onto == t > 0 \/ Cardinality({At(kind, lev, s) : s \in 0..(Size(kind, lev) - 1)}) = Size(kind, lev)
============================================================================
