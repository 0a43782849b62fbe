------------------------------ MODULE MC_Paths -----------------------------
(* Design model of two-sided growth: for every rule on the 2x2 grid and any *)
(* number of breadth-first steps on either side, gluing gives exactly the   *)
(* Hamiltonian paths that obey the rule.                                    *)
EXTENDS PathSystem
CONSTANTS States, Sparse
VARIABLES rule, A, B, fin
N == 4
NN == 4 * States
Node == 0..(NN - 1)
Edges == {<<x, y>> \in Node \X Node : (x \div States) # (y \div States)}
\* a fixed permutation-like thinning keeps the two-state model small
Pool == IF States = 1 THEN Edges ELSE {e \in Edges : (e[1] * 3 + e[2] * 5) % Sparse = 0}
Succ(R) == Mat([x \in 1..NN |-> {e[2] : e \in {f \in R : f[1] = x - 1}}])
Init == /\ \E R \in SUBSET Pool : rule = TLCEval(Succ(R))
        /\ \E st \in {{0}, {0, NN - 1}} : A = {<<x>> : x \in st}
        /\ fin \in {{1}, {NN - 2, 1}, {2}}
        /\ B = {<<x>> : x \in fin}
Widen == A' = Forward(States, rule, A) /\ A # {} /\ Len(CHOOSE p \in A : TRUE) < 2 /\ UNCHANGED <<rule, B, fin>>
WidenBack == B' = Backward(States, NN, rule, B) /\ B # {} /\ Len(CHOOSE p \in B : TRUE) < 2 /\ UNCHANGED <<rule, A, fin>>
Next == Widen \/ WidenBack
Spec == Init /\ [][Next]_<<rule, A, B, fin>>
Want == AllPaths(States, N, rule, {0}, fin)
Starts == {p[1] : p \in A}
Complete2 == AllPaths(States, N, rule, {0, NN - 1}, fin)
\* whatever the budgets, the glued set is complete and sound
Exact == LET g == Glued(States, N, rule, A, B) IN
         /\ g \subseteq Complete2
         /\ \A p \in Complete2 : (\E a \in A : SubSeq(p, 1, Len(a)) = a) => p \in g
============================================================================
