----------------------------- MODULE C09_Trace -----------------------------
(* C09: the regular junctions of a curve, their standard form and depths.   *)
EXTENDS TraceBase, Curve

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "juncs" ->
          LET L == JLayers(e.C)
              want == UNION {{<<j[1], j[2], j[3], k>> : j \in L[k]} : k \in 1..Len(L)}
              got == {<<e.r[k][1], e.r[k][2], e.r[k][3], e.r[k][4]>> : k \in 1..Len(e.r)}
              NoDepth(S) == {<<x[1], x[2], x[3]>> : x \in S}
          IN Bad("junction listed twice", Cardinality(NoDepth(got)) = Len(e.r))
             \cup Bad("junction missing", NoDepth(want) \subseteq NoDepth(got))
             \cup Bad("junction that does not occur", NoDepth(got) \subseteq NoDepth(want))
             \cup Bad("depths", got = want)
             \cup Bad("standard form", \A x \in got : /\ CubeOf(x[1][1]) = Id(e.C.d) /\ x[1][2] <= x[2][2])
             \cup Bad("pair at some level is not listed", e.occ = 0 \/ LET D1 == {BaseJ(e.C, q, k) : q \in 1..Mult(e.C), k \in 1..(Genus(e.C) - 1)}
                     IN \A y \in D1 \cup {Derive(e.C, x) : x \in D1} : \E x \in NoDepth(got) : x \in ClassJ(y))
             \cup Bad("time shift", \A k \in 1..Len(e.r) : e.r[k][5] = 1)
             \cup Bad("curve depth", e.depth = Len(L))
             \cup Bad("auto junctions", {<<a[1], a[2], a[3], a[4], a[5]>> : a \in Seq2Set(e.auto)} =
                      {<<Root(e.C, q), Root(e.C, q), [j \in 1..e.C.d |-> 0], 0, 0>> : q \in 1..Mult(e.C)}
                      /\ Len(e.auto) = Mult(e.C))
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
