---------------------------- MODULE MC_Bisection ---------------------------
(* Design model of the bisection for the minimum of a class (C18).  All     *)
(* values are multiples of 1/den; members have unknown dilations; the       *)
(* threshold test may answer whatever the contract of C17 allows, the first *)
(* bracket comes from any member or from valid bounds supplied by the user. *)
EXTENDS Integers, FiniteSets
CONSTANTS Mem, V, Tol, MaxDen
VARIABLES truth, lo, up, den, cur, halt
vars == <<truth, lo, up, den, cur, halt>>
MinT == CHOOSE x \in 0..V : (\E k \in Mem : truth[k] = x) /\ \A k \in Mem : truth[k] >= x
Init == /\ truth \in [Mem -> 1..V] /\ den = 1 /\ halt = FALSE
        /\ lo \in 0..MinT
        /\ cur \in Mem /\ up \in truth[cur]..V
Wide == up * Tol > lo * (Tol + 1)
Step(nl, nu, c, dd) == lo' = nl /\ up' = nu /\ cur' = c /\ den' = dd
\* test thresholds a < b (over denominator dd)
Bisect == /\ ~halt /\ Wide /\ den < MaxDen
          /\ LET dd == IF lo = 0 THEN den * 6 ELSE den * 3
                 L == (lo * dd) \div den
                 U == (up * dd) \div den
                 a == IF lo = 0 THEN U \div 2 ELSE (2 * L + U) \div 3
                 b == IF lo = 0 THEN (2 * U) \div 3 ELSE (L + 2 * U) \div 3
             IN \/ \E c \in Mem : truth[c] * dd <= b /\ Step(L, b, c, dd)
                \/ (\A c \in Mem : truth[c] * dd >= a) /\ Step(a, U, cur, dd)
          /\ UNCHANGED <<truth, halt>>
Stop == ~halt /\ (~Wide \/ den >= MaxDen) /\ halt' = TRUE /\ UNCHANGED <<truth, lo, up, den, cur>>
Next == Bisect \/ Stop
Spec == Init /\ [][Next]_vars
Bracket == lo <= MinT * den /\ MinT * den <= up
Witness == lo <= truth[cur] * den /\ truth[cur] * den <= up
\* the test always has an answer, so that the bracket shrinks until the tolerance is met
Progress == Wide /\ den < MaxDen /\ ~halt => ENABLED Bisect
============================================================================
