------------------------------ MODULE MC_Class -----------------------------
(* Design model: all histories of specify / act on a small class (the class *)
(* of Hilbert-like curves).  Invariants: the class stays exactly the image  *)
(* of the corresponding subset of the original members; every member's      *)
(* fractions meet (a class member is continuous).                           *)
EXTENDS Class, TLC
CONSTANTS Depth
VARIABLES cl, sub, acts, steps
\* Hilbert prototype with corner gates, D = 1
H0 == [d |-> 2, n |-> 2, D |-> 1, p |-> 1, G |-> Maps(2),
       pats |-> <<[c |-> <<<<0,0>>, <<0,1>>, <<1,1>>, <<1,0>>>>,
                   l |-> << <<<<0,0>>,<<1,0>>>>, <<<<0,0>>,<<0,1>>>>, <<<<0,0>>,<<0,1>>>>, <<<<1,1>>,<<1,0>>>> >>,
                   s |-> <<<<>>, <<>>, <<>>, <<>>>>]>>]
Start == [H0 EXCEPT !.pats[1].l = << <<<<0,0>>,<<0,1>>>>, <<<<0,0>>,<<1,0>>>>, <<<<0,0>>,<<1,0>>>>, <<<<1,1>>,<<1,0>>>> >>]
MembersOf(c) == LET al == AllowedAll(c)[1] IN {<<s1, s2, s3, s4>> : s1 \in al[1], s2 \in al[2], s3 \in al[3], s4 \in al[4]}
AsCurve(c, v) == [d |-> 2, n |-> 2, p |-> 1, pats |-> <<[c |-> c.pats[1].c, s |-> v]>>]
Orig == MembersOf(Start)
Init == cl = Start /\ sub = Orig /\ acts = Id(2) /\ steps = 0
DoSpecify == \E k \in 1..4 : \E sp \in Allowed(cl, 1, k) :
   /\ cl' = Specify(cl, 1, k, sp)
   \* the same restriction on the original members
   /\ sub' = {v \in sub : ActCurve(acts, AsCurve(Start, v)).pats[1].s[k] = sp}
   /\ UNCHANGED acts
DoAct == \E a \in {<<<<2,1>>, <<0,0>>, 0>>, <<<<1,2>>, <<1,0>>, 0>>, <<<<1,2>>, <<0,0>>, 1>>} :
   cl' = ClassAct(cl, a) /\ acts' = Mul(a, acts) /\ UNCHANGED sub
Next == steps < Depth /\ steps' = steps + 1 /\ (DoSpecify \/ DoAct)
Spec == Init /\ [][Next]_<<cl, sub, acts, steps>>
Exactly == MembersOf(cl) = {ActCurve(acts, AsCurve(Start, v)).pats[1].s : v \in sub}
NonEmpty == Cardinality(Orig) = 16 /\ sub # {}
AllContinuous == steps = 0 => \A v \in Orig : Continuous(AsCurve(Start, v))
============================================================================
