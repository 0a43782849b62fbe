----------------------------- MODULE C02_Trace -----------------------------
(* C02: isometries with prescribed images, and standard forms.              *)
EXTENDS TraceBase, Orbit, FacetSet

CM == [d \in 1..5 |-> CubeMaps(d)]
AM == [d \in 1..4 |-> Maps(d)]

SetIs(r, want) == Bad("listed twice", Cardinality(Seq2Set(r)) = Len(r))
                  \cup Bad("missing isometry", want \subseteq Seq2Set(r))
                  \cup Bad("wrong isometry", Seq2Set(r) \subseteq want)
Whole(d, n, r) == Exp(n, r)
\* facet links: both ends, boxes at common scale L
FB(e, s) == FBox(e.d, e.n, s, e.L)
FMap(e, a, s) == BoxMap(a, Exp(e.n, e.L), FB(e, s))
FLink(e, a, k) == IF a[3] = 1 THEN <<FMap(e, a, k[2]), FMap(e, a, k[1])>> ELSE <<FMap(e, a, k[1]), FMap(e, a, k[2])>>
FLinkB(e, k) == <<FB(e, k[1]), FB(e, k[2])>>

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "cons" -> SetIs(e.r, Carriers(e.x, e.y, e.D, CM[e.d]))
     [] e.op = "pmul" -> SetIs(e.r, Carriers(e.x, e.y, e.D, Seq2Set(e.among)))
     [] e.op = "lmul" -> SetIs(e.r, LCarriers(e.x, e.y, e.D, AM[e.d]))
     [] e.op = "fmul" -> SetIs(e.r, {a \in CM[e.d] : BoxMeets(FMap(e, a, e.x), FB(e, e.y))})
     [] e.op = "fmulb" -> SetIs(e.r, {a \in Seq2Set(e.among) : BoxMeets(FMap(e, a, e.x), FB(e, e.y))})
     [] e.op = "flmul" -> SetIs(e.r, {a \in AM[e.d] : LET z == FLink(e, a, e.x) IN
                                        BoxMeets(z[1], FB(e, e.y[1])) /\ BoxMeets(z[2], FB(e, e.y[2]))})
     [] e.op = "pstd" -> Bad("least point of the orbit", e.r = PStd(e.x, e.D))
     [] e.op = "pstdd" -> Bad("least point of the orbit", IsPStd(e.r, e.x, e.D, CM[e.d]))
     [] e.op = "argstd" -> SetIs(e.r, Carriers(e.x, PStd(e.x, e.D), e.D, CM[e.d]))
     [] e.op = "lstd" -> Bad("least link of the orbit", IsLStd(e.r, e.x, e.D, AM[e.d]))
     [] e.op = "lpair" -> Bad("same standard form iff images of each other",
                              (e.same = 1) <=> (\E a \in AM[e.d] : ActLink(a, e.x, e.D) = e.y))
     [] e.op = "ppair" -> Bad("same standard form iff images of each other",
                              (e.same = 1) <=> (\E a \in CM[e.d] : ActX(a, e.x, e.D) = e.y))
     [] e.op = "flpair" -> Bad("same standard form iff images of each other",
                              (e.same = 1) <=> (\E a \in AM[e.d] : FLink(e, a, e.x) = FLinkB(e, e.y)))
                           \cup Bad("standard form is an image", \E a \in AM[e.d] : FLink(e, a, e.x) = FLinkB(e, e.r))
                           \cup Bad("least of the orbit", \A k \in 1..Len(e.le) : e.le[k] = 1)
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
