-------------------------------- MODULE Heap -------------------------------
(* A collection of items with bounds lo <= up, a good and a bad threshold   *)
(* (NONE: not set).  h = [act, pend, good, bad, keep, maxlo]:               *)
(*   act: active items, pend: bad items not yet handed out, maxlo: greatest *)
(*   lower bound seen (-1: nothing seen).  item = <<id, lo, up>>            *)
EXTENDS Integers, FiniteSets, Sequences
NONE == 0 - 1
NewHeap(g, b, keep) == [act |-> {}, pend |-> {}, good |-> g, bad |-> b, keep |-> keep, maxlo |-> 0 - 1]
GoodItem(h, it) == h.good # NONE /\ it[3] <= h.good
BadItem(h, it)  == ~GoodItem(h, it) /\ h.bad # NONE /\ it[2] >= h.bad
Push(h, it) == LET h1 == IF h.keep = 1 /\ it[2] > h.maxlo THEN [h EXCEPT !.maxlo = it[2]] ELSE h
               IN IF GoodItem(h, it) THEN h1
                  ELSE IF BadItem(h, it) THEN [h1 EXCEPT !.pend = @ \cup {it}]
                  ELSE [h1 EXCEPT !.act = @ \cup {it}]
CanRaise(h, t) == h.good = NONE \/ t >= h.good
Raise(h, t) == [h EXCEPT !.good = t, !.act = {it \in @ : it[3] > t}]
Tops(h) == {it \in h.act : \A o \in h.act : o[3] <= it[3]}
CanCopy(h) == h.good = NONE /\ h.bad = NONE /\ h.keep = 0
Fresh(h, g, b) == [NewHeap(g, b, 0) EXCEPT !.act = {it \in h.act : ~(g # NONE /\ it[3] <= g) /\ ~(b # NONE /\ it[2] >= b)},
                                           !.pend = {it \in h.act : ~(g # NONE /\ it[3] <= g) /\ b # NONE /\ it[2] >= b}]
============================================================================
