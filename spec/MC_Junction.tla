---------------------------- MODULE MC_Junction ----------------------------
(* Design model: the junction automaton of a curve.  States are pairs of    *)
(* consecutive fractions (raw, not standardised) reached by descending; the *)
(* invariants say that, up to reversal of time, standardising commutes with *)
(* deriving, so that the junctions listed by layers are those that occur.   *)
EXTENDS Class
CONSTANTS NPat
VARIABLES C, q, jn, depth
Hil == <<<<0,0>>, <<0,1>>, <<1,1>>, <<1,0>>>>
Links == << <<<<0,0>>,<<0,1>>>>, <<<<0,0>>,<<1,0>>>>, <<<<0,0>>,<<1,0>>>>, <<<<1,1>>,<<1,0>>>> >>
\* every curve over the Hilbert prototype and gates, both directions of time
A(k) == {a \in Maps(2) : CLink(a, <<<<0,0>>, <<1,0>>>>, 1) = Links[k]}
SpecsOf(k) == {<<a, pn>> : a \in A(k), pn \in 1..NPat}
Pats == {[c |-> Hil, s |-> <<s1, s2, s3, s4>>] : s1 \in SpecsOf(1), s2 \in SpecsOf(2), s3 \in SpecsOf(3), s4 \in SpecsOf(4)}
Fixed == CHOOSE P \in Pats : \A k \in 1..4 : P.s[k][2] = 1 + (k % NPat) /\ P.s[k][1][3] = k % 2
Init == /\ \E P \in Pats : C = [d |-> 2, n |-> 2, p |-> 1, pats |-> IF NPat = 1 THEN <<P>> ELSE <<P, Fixed>>]
        /\ q \in 1..NPat
        /\ \E k \in 1..3 : jn = BaseJ(C, q, k)
        /\ depth = 1
Next == depth < 5 /\ jn' = Derive(C, jn) /\ depth' = depth + 1 /\ UNCHANGED <<C, q>>
Spec == Init /\ [][Next]_<<C, q, jn, depth>>
Touching == Touch(jn)
\* up to reversal of time, what occurs at some depth is listed no later than that, and conversely what is listed occurs
Listed == LET L == JLayers(C) IN \E k \in 1..Len(L) : k <= depth /\ \E x \in L[k] : x \in ClassJ(jn)
Occ(k) == LET base == {BaseJ(C, p, z) : p \in 1..NPat, z \in 1..3}
              Der[r \in 1..5] == IF r = 1 THEN base ELSE {Derive(C, x) : x \in Der[r - 1]}
          IN Der[k]
Occurs == depth = 1 => LET L == JLayers(C) IN \A k \in 1..Len(L) : k <= 5 => \A x \in L[k] : \E y \in Occ(k) : ClassJ(y) = ClassJ(x)
StdIdem == StdJ(StdJ(jn)) = StdJ(jn)
StdClass == StdJ(jn) \in ClassJ(jn)
Commutes == StdJ(Derive(C, StdJ(jn))) \in ClassJ(Derive(C, jn))
============================================================================
