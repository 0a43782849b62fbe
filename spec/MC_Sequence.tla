----------------------------- MODULE MC_Sequence ---------------------------
(* Design model of the search over a sequence of classes (C18, C19).  Each  *)
(* class has an unknown minimum m; an estimate answers any bracket that the *)
(* contract of C18 allows: it contains m, refines the bracket it was        *)
(* started with, and is tight (width <= w) unless its lower end exceeds the *)
(* stop bound.  Epochs refine the survivors with decreasing w.              *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NC, V, Widths
VARIABLES m, br, active, nextA, todo, up, lo, w, state, bound
vars == <<m, br, active, nextA, todo, up, lo, w, state, bound>>
INF == V + 1
W3 == <<2, 1, 0>>
Cls == 1..NC
Min(a, b) == IF a <= b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Truth == MinS({m[c] : c \in Cls})
Init == /\ m \in [Cls -> 1..V] /\ bound \in 1..INF
        /\ br = [c \in Cls |-> <<0, V>>] /\ active = Cls /\ nextA = {} /\ todo = Cls
        /\ up = bound /\ lo = 0 /\ w = 1 /\ state = "epoch"
\* one class of the epoch, in any order
Estimate(c) ==
  /\ state = "epoch" /\ c \in todo
  /\ \E l \in br[c][1]..m[c], u \in m[c]..br[c][2] :
       /\ u - l <= Widths[w] \/ l > up
       /\ LET nu == Min(up, u)
              cand == IF l <= nu THEN nextA \cup {c} ELSE nextA
              br2 == [br EXCEPT ![c] = <<l, u>>]
          IN /\ br' = br2 /\ up' = nu
             /\ nextA' = {x \in cand : br2[x][1] <= nu}
  /\ todo' = todo \ {c}
  /\ UNCHANGED <<m, active, lo, w, state, bound>>
EndEpoch ==
  /\ state = "epoch" /\ todo = {}
  /\ IF nextA = {} THEN state' = "none" /\ UNCHANGED <<active, lo, w, nextA, todo>>
     ELSE LET nl == MinS({br[x][1] : x \in nextA})
          IN /\ active' = nextA /\ lo' = nl
             /\ IF up - nl <= Widths[Len(Widths)] THEN state' = "done" /\ UNCHANGED <<w, nextA, todo>>
                ELSE w' = Min(w + 1, Len(Widths)) /\ todo' = nextA /\ nextA' = {} /\ state' = "epoch"
  /\ UNCHANGED <<m, br, up, bound>>
Next == EndEpoch \/ \E c \in Cls : Estimate(c)
Spec == Init /\ [][Next]_vars
Valid == Truth <= bound
Bracket == Valid => lo <= Truth /\ Truth <= up
WinnerKept == Valid => \A c \in Cls : m[c] = Truth => c \in nextA \cup todo \cup (IF state = "done" THEN active ELSE {})
NoneOnlyIfWorse == state = "none" => ~Valid
ListedNear == state = "done" /\ Valid => \A c \in active : br[c][1] <= up
============================================================================
