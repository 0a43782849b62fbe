----------------------------- MODULE C21_Trace -----------------------------
(* C21: histories of the bounded-items heap.  Abstract state: the heaps.    *)
EXTENDS TraceBase, Heap
Ids(S) == {it[1] : it \in S}
J(mm, e) ==
   CASE e.op = "reset" -> [m |-> <<>>, bad |-> {}]
     [] e.op = "new"   -> [m |-> Append(mm, NewHeap(e.good, e.bad, e.keep)), bad |-> {}]
     [] e.op = "push"  -> [m |-> [mm EXCEPT ![e.h] = Push(@, <<e.x, e.lo, e.up>>)], bad |-> {}]
     [] e.op = "raise" -> IF e.err = 1 THEN [m |-> mm, bad |-> Bad("raising the threshold refused", ~CanRaise(mm[e.h], e.t))]
                          ELSE [m |-> IF CanRaise(mm[e.h], e.t) THEN [mm EXCEPT ![e.h] = Raise(@, e.t)] ELSE mm,
                                bad |-> Bad("lowering the threshold accepted", CanRaise(mm[e.h], e.t))]
     [] e.op = "size"  -> [m |-> mm, bad |-> Bad("size", e.r = Cardinality(mm[e.h].act))]
     [] e.op = "items" -> [m |-> mm, bad |-> Bad("active items", Len(e.r) = Cardinality(mm[e.h].act) /\ Seq2Set(e.r) = Ids(mm[e.h].act))]
     [] e.op = "top"   -> [m |-> mm, bad |-> Bad("top has the largest upper bound", e.r \in Ids(Tops(mm[e.h])))]
     [] e.op = "pop"   -> [m |-> [mm EXCEPT ![e.h].act = {it \in @ : it[1] # e.r}],
                           bad |-> Bad("popped item has the largest upper bound", e.r \in Ids(Tops(mm[e.h])))]
     [] e.op = "popbad" -> [m |-> [mm EXCEPT ![e.h].pend = {}],
                            bad |-> Bad("bad items handed out once each", Len(e.r) = Cardinality(mm[e.h].pend) /\ Seq2Set(e.r) = Ids(mm[e.h].pend))]
     [] e.op = "copy"  -> [m |-> Append(mm, Fresh(mm[e.h], e.good, e.bad)), bad |-> {}]
     [] e.op = "maxlo" -> [m |-> mm, bad |-> Bad("greatest lower bound seen", e.r = mm[e.h].maxlo)]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
