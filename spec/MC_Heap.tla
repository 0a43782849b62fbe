------------------------------ MODULE MC_Heap ------------------------------
(* Design model of the bounded-items heap: all histories up to a length.    *)
(* Conservation: every item pushed is accounted for exactly once.           *)
(* In simulation the history is printed and replayed into the real heap.    *)
EXTENDS Heap, TLC, Json, IOUtils
CONSTANTS V, MaxLen, MaxItems
VARIABLES h, c, hist, dropped, out, popped, nit, maxgood
vars == <<h, c, hist, dropped, out, popped, nit, maxgood>>
Thr == {NONE} \cup 0..V
Init == /\ \E g \in Thr, b \in Thr, k \in {0, 1} : h = NewHeap(g, b, k) /\ maxgood = g
                                                   /\ hist = <<[op |-> "new", good |-> g, bad |-> b, keep |-> k]>>
        /\ c = <<>> /\ dropped = {} /\ out = {} /\ popped = <<>> /\ nit = 0
Log(r) == hist' = Append(hist, r)
DoPush == /\ nit < MaxItems
          /\ \E l \in 0..V, u \in 0..V : l <= u /\
             LET it == <<nit + 1, l, u>> IN
             /\ h' = Push(h, it) /\ nit' = nit + 1
             /\ dropped' = IF GoodItem(h, it) THEN dropped \cup {it} ELSE dropped
             /\ Log([op |-> "push", lo |-> l, up |-> u])
          /\ UNCHANGED <<c, out, popped, maxgood>>
DoRaise == \E t \in 0..V :
             /\ Log([op |-> "raise", t |-> t])
             /\ IF CanRaise(h, t) THEN /\ h' = Raise(h, t) /\ maxgood' = t
                                       /\ dropped' = dropped \cup {it \in h.act : it[3] <= t}
                ELSE UNCHANGED <<h, maxgood, dropped>>
             /\ UNCHANGED <<c, out, popped, nit>>
DoPop == h.act # {} /\ \E it \in Tops(h) :
             /\ h' = [h EXCEPT !.act = @ \ {it}]
             /\ popped' = Append(popped, it) /\ Log([op |-> "pop"])
             /\ UNCHANGED <<c, dropped, out, nit, maxgood>>
DoBad == /\ h' = [h EXCEPT !.pend = {}] /\ out' = out \cup h.pend /\ Log([op |-> "popbad"])
         /\ UNCHANGED <<c, dropped, popped, nit, maxgood>>
DoCopy == CanCopy(h) /\ c = <<>> /\ \E g \in Thr, b \in Thr : c' = <<Fresh(h, g, b)>> /\ Log([op |-> "copy", good |-> g, bad |-> b])
          /\ UNCHANGED <<h, dropped, out, popped, nit, maxgood>>
Next == Len(hist) < MaxLen /\ (DoPush \/ DoRaise \/ DoPop \/ DoBad \/ DoCopy)
Spec == Init /\ [][Next]_vars
PopSet == {popped[k] : k \in 1..Len(popped)}
All == h.act \cup h.pend \cup dropped \cup out \cup PopSet
Conserved == /\ Cardinality(All) = nit
             /\ Cardinality(h.act) + Cardinality(h.pend) + Cardinality(dropped) + Cardinality(out) + Len(popped) = nit
DroppedGood == \A it \in dropped : maxgood # NONE /\ it[3] <= maxgood
ActiveOk == \A it \in h.act : ~GoodItem(h, it) /\ ~BadItem(h, it)
BadOk == \A it \in h.pend \cup out : h.bad # NONE /\ it[2] >= h.bad
CopyOk == c = <<>> \/ \A it \in c[1].act \cup c[1].pend : it \in All
\* no counterexample: prints complete histories in simulation mode
Emit == Len(hist) < MaxLen \/ "EMIT" \notin DOMAIN IOEnv \/ PrintT(<<"HIST", ToJson(hist)>>)
View == <<h, c, Len(hist), dropped, out, popped, nit, maxgood>>
============================================================================
