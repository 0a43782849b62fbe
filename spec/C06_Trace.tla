----------------------------- MODULE C06_Trace -----------------------------
(* C06: entrance and exit are the limit points of the nested first / last   *)
(* cubes; links of a curve's paths are the images of these gates.           *)
EXTENDS TraceBase, Limit

\* link <<D, entrance, exit>> with limb coordinates; image under a map (numerators over D)
RECURSIVE SubAux(_, _, _, _, _)
SubAux(a, b, L, k, acc) == IF k > L THEN acc[2]
   ELSE LET v == Limb(a, k) - Limb(b, k) + acc[1] IN SubAux(a, b, L, k + 1, <<v \div Base, Append(acc[2], v % Base)>>)
Sub(a, b) == SubAux(a, b, Len(a), 1, <<0, <<>>>>)
ActBig(a, x, D) == [i \in 1..Len(x) |-> IF a[2][i] = 1 THEN Sub(D, x[a[1][i]]) ELSE Norm(x[a[1][i]], Len(D))]
ActBigLink(a, l) == LET e == ActBig(a, l[2], l[1])  x == ActBig(a, l[3], l[1])
                    IN IF a[3] = 1 THEN <<x, e>> ELSE <<e, x>>

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "end" -> Bad(IF e.last = 1 THEN "exit" ELSE "entrance", IsEnd(e.C, e.q, e.last, e.x, e.D))
     [] e.op = "paths" -> \* e.g[q] = gates of pattern q, e.l[q][k] = link of fraction k (all over e.D)
          LET n == Mult(e.C)
          IN Bad("gates of patterns", \A q \in 1..n : /\ IsEnd(e.C, q, 0, e.g[q][1], e.D)
                                                      /\ IsEnd(e.C, q, 1, e.g[q][2], e.D))
             \cup Bad("number of paths", Len(e.l) = n)
             \cup Bad("prototypes of paths", e.c = [q \in 1..n |-> e.C.pats[q].c])
             \cup Bad("links of fractions",
                \A q \in 1..n : \A k \in 1..Genus(e.C) :
                   LET s == e.C.pats[q].s[k]
                       w == ActBigLink(s[1], <<e.D, e.g[s[2]][1], e.g[s[2]][2]>>)
                   IN NormX(e.l[q][k][1], e.D) = w[1] /\ NormX(e.l[q][k][2], e.D) = w[2])
             \cup Bad("global links", \A q \in 1..n : e.gl[q] = e.g[q])
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
