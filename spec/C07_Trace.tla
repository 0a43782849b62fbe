----------------------------- MODULE C07_Trace -----------------------------
(* C07: first / last moments of touching a face, and the touched point.     *)
EXTENDS TraceBase, Limit

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "moment" -> Bad(IF e.last = 1 THEN "last moment" ELSE "first moment",
                               IsMoment(e.C, e.q, e.face, e.last, <<>>, <<1>>, e.t, e.T))
     [] e.op = "point"  -> Bad("touch point and moment",
                               Len(e.x) = e.C.d /\ IsMoment(e.C, e.q, e.face, e.last, e.x, e.D, e.t, e.T))
                           \cup Bad("point on the face", \A j \in 1..Len(e.x) :
                                  /\ e.face[j] = 0 => \A k \in 1..Len(e.x[j]) : e.x[j][k] = 0
                                  /\ e.face[j] = 1 => Norm(e.x[j], Len(e.D)) = e.D)
     [] e.op = "vertices" -> Bad("all vertices", Cardinality(Seq2Set(e.v)) = Exp(2, e.C.d) /\ Len(e.v) = Exp(2, e.C.d))
                           \cup Bad("vertex moments", \A k \in 1..Len(e.v) :
                                  IsMoment(e.C, e.q, e.v[k], e.k, <<>>, <<1>>, e.t[k], e.T))
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
