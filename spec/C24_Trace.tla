----------------------------- MODULE C24_Trace -----------------------------
(* C24: arithmetic helpers and ratio functions.                             *)
EXTENDS TraceBase, Arith
J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "ratio" -> Bad("ratio is the norm to the power d over the time", REq(e.r, Ratio(e.k, e.d, e.v, e.D, e.t)))
     [] e.op = "psum"  -> Bad("sum of the series", IsPeriodicSum(e.start, e.period, e.b, e.r))
     [] e.op = "icube" -> Bad("integer coordinates of nested cubes", Len(e.r) = e.d /\
                              \A j \in 1..e.d : BEq(e.r[j], Horner(Map1(e.cubes, LAMBDA c : c[j]), e.n)))
     [] e.op = "itime" -> Bad("integer time of nested fractions", BEq(e.r, Horner(e.cnums, e.g)))
     [] e.op = "biglcm" -> Bad("least common multiple", BEq(e.r, BLcm(e.xs)))
     [] e.op = "lcm"   -> Bad("least common multiple", IsLcm(e.xs, e.r))
     [] e.op = "faces" -> Bad("faces, each once", Len(e.r) = Cardinality(Seq2Set(e.r)) /\ Seq2Set(e.r) = Faces(e.d, e.fd))
     [] e.op = "comb"  -> LET got == Map1(e.r, LAMBDA t : Canon(e.ids, t))
                          IN Bad("elements from the right iterables", \A k \in 1..Len(e.r) : Len(e.r[k]) = Len(e.ids)
                                     /\ \A j \in 1..Len(e.ids) : e.r[k][j] \in 0..(e.size[e.ids[j]] - 1))
                             \cup Bad("every choice exactly once", Len(got) = Cardinality(Seq2Set(got)) /\ Seq2Set(got) = Picks(e.ids, e.size))
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
