----------------------------- MODULE C08_Trace -----------------------------
(* C08: the continuity verdict on curves and on paths.                      *)
EXTENDS TraceBase, Limit, FacetSet

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "check" -> Bad("curve continuity verdict", (e.r = 1) = Continuous(e.C))
     [] e.op = "path"  -> \* point links over e.D, cubes e.c: exit k + cube k = entrance k+1 + cube k+1
          LET cont == \A k \in 1..(Len(e.c) - 1) : \A j \in 1..Len(e.c[1]) :
                        e.l[k][2][j] + e.D * e.c[k][j] = e.l[k + 1][1][j] + e.D * e.c[k + 1][j]
          IN Bad("path continuity verdict", (e.r = 1) = cont)
     [] e.op = "fpath" -> \* facet subset links
          LET L == e.L
              M == Exp(e.n, L)
              cont == \A k \in 1..(Len(e.c) - 1) :
                        BoxMeets(BoxShift(FBox(e.d, e.n, e.l[k][2], L), [j \in 1..e.d |-> M * e.c[k][j]]),
                                 BoxShift(FBox(e.d, e.n, e.l[k + 1][1], L), [j \in 1..e.d |-> M * e.c[k + 1][j]]))
          IN Bad("facet path continuity verdict", (e.r = 1) = cont)
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
