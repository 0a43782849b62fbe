----------------------------- MODULE C22_Trace -----------------------------
(* C22: the answers of a fresh process (event "fresh") against those of one *)
(* process with a history (event "ask"); objects never change (event        *)
(* "object").                                                               *)
EXTENDS TraceBase, Memo
J(mm, e) ==
   CASE e.op = "start"  -> [m |-> [ans |-> <<>>, obj |-> <<>>], bad |-> {}]
     [] e.op = "fresh"  -> [m |-> [mm EXCEPT !.ans = Learn(@, e.q, e.r)], bad |-> Bad("fresh processes agree", Agrees(mm.ans, e.q, e.r))]
     [] e.op = "ask"    -> [m |-> mm, bad |-> Bad("the query was asked afresh", Known(mm.ans, e.q))
                                              \cup Bad("answer depends on the history", Agrees(mm.ans, e.q, e.r))]
     [] e.op = "object" -> [m |-> [mm EXCEPT !.obj = Learn(@, e.o, e.r)], bad |-> Bad("object changed", Agrees(mm.obj, e.o, e.r))]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
