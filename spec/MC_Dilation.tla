---------------------------- MODULE MC_Dilation ----------------------------
(* Design model of the branch and bound: the state is a pair of fractions,  *)
(* a step divides both and follows any pair of parts.  The bounds of a pair *)
(* enclose those of every later pair (nesting), so dropping a pair whose    *)
(* upper bound is below a known lower bound loses nothing; and no pair has  *)
(* a lower bound above, nor the whole curve an upper bound below, the value *)
(* known for the curve.                                                     *)
EXTENDS Dilation
CONSTANTS Which, Kind, MaxT
VARIABLES P, lo, up
M(p, f, r) == <<p, f, r>>
Hil == [d |-> 2, n |-> 2, p |-> 1, pats |-> <<[c |-> <<<<0,0>>,<<0,1>>,<<1,1>>,<<1,0>>>>,
   s |-> <<<<M(<<2,1>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<2,1>>,<<1,1>>,0),1>>>>]>>]
Line == [d |-> 1, n |-> 3, p |-> 1, pats |-> <<[c |-> <<<<0>>,<<1>>,<<2>>>>, s |-> <<<<M(<<1>>,<<0>>,0),1>>, <<M(<<1>>,<<0>>,0),1>>, <<M(<<1>>,<<0>>,0),1>>>>]>>]
C == CASE Which = "hilbert" -> Hil [] Which = "line" -> Line
Known == CASE Which = "hilbert" /\ Kind \in {"linf", "l2"} -> 6 [] Which = "hilbert" /\ Kind = "l1" -> 9 [] OTHER -> 1
S == 1000
Inf == 2000000000
U(Q) == IF Q[4] <= 1 THEN Inf ELSE UpVal(Kind, S, Q[3], Q[4])
L(Q) == IF Q[4] = 0 THEN 0 ELSE LoVal(Kind, S, Q[3], Q[4])
Init == P \in Roots(C) /\ lo = 0 /\ up = Inf
Next == /\ P[4] <= MaxT
        /\ \E Q \in KidsOf(C, Kind, S, P, 0 - 1) : P' = Q /\ lo' = L(Q) /\ up' = U(Q)
Spec == Init /\ [][Next]_<<P, lo, up>>
\* rounding moves a bound by at most one unit
Nesting == [][/\ up' <= up + 1 /\ lo' <= up + 1]_<<P, lo, up>>
Sound == lo <= Known * S
Consistent == lo <= up
\* the recursion finds the known value
Value == LET r == Dil(C, Kind, S, 100, 14) IN r[1] <= Known * S /\ Known * S <= r[2] /\ r[2] - r[1] <= (Known * S) \div 50
ASSUME Value
============================================================================
