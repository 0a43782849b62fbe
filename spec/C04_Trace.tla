----------------------------- MODULE C04_Trace -----------------------------
(* C04: actions of base maps and specs on curves, prototypes, links, paths  *)
(* and classes; equality of curves.                                         *)
EXTENDS TraceBase, Curve

\* links <<D, entrance numerators, exit numerators>>
ActLink(a, l) == LET e == ActX(a, l[2], l[1])  x == ActX(a, l[3], l[1])
                 IN IF a[3] = 1 THEN <<l[1], x, e>> ELSE <<l[1], e, x>>
RevSeq(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
ActLinks(a, ls) == LET r == [k \in 1..Len(ls) |-> ActLink(a, ls[k])] IN IF a[3] = 1 THEN RevSeq(r) ELSE r

SameCurve(C, D) == C.d = D.d /\ C.n = D.n /\ C.p = D.p /\ C.pats = D.pats

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "act"   -> \* e.a = <<map, pattern or 0>>
          LET want == ActCurve(e.a[1], e.C)
              p    == IF e.a[2] = 0 THEN e.C.p ELSE e.a[2]
          IN Bad("shape", e.r.d = e.C.d /\ e.r.n = e.C.n /\ Len(e.r.pats) = Len(e.C.pats))
             \cup Bad("selected pattern", e.r.p = p)
             \cup Bad("prototype of the image", \A q \in 1..Len(want.pats) : e.r.pats[q].c = want.pats[q].c)
             \cup Bad("specs of the image", \A q \in 1..Len(want.pats) : e.r.pats[q].s = want.pats[q].s)
     [] e.op = "deep"  -> \* deep cubes of the image curve r = a*C, as integer positions, in time order
          LET N == Exp(e.C.n, e.l)
              T == Exp(Genus(e.C), e.l)
          IN Bad("deep cubes of the image",
                \A k \in 1..Len(e.ts) :
                  LET t  == e.ts[k]
                      t0 == ActCnum(e.a[1], T, t)
                  IN  e.xs[k] = ActCube(e.a[1], N, DeepCube(e.C, Root(e.C, e.q), Addr(Genus(e.C), t0, e.l))))
     [] e.op = "eq"    -> Bad("equality", (e.r = 1) = SameCurve(e.C, e.D))
                          \cup Bad("inequality", (e.ne = 1) = ~SameCurve(e.C, e.D))
                          \cup Bad("hash", SameCurve(e.C, e.D) => e.h = 1)
     [] e.op = "proto" -> Bad("prototype", e.r = ActProto(e.a, e.n, e.c))
     [] e.op = "pattern" -> Bad("reversed pattern", e.r.c = RevSeq(e.c) /\ e.r.s = RevSeq(e.s))
     [] e.op = "link"  -> Bad("link", e.r = ActLink(e.a, e.l))
     [] e.op = "path"  -> Bad("path prototype", e.rc = ActProto(e.a, e.n, e.c))
                          \cup Bad("path links", e.rl = ActLinks(e.a, e.ls))
                          \cup Bad("path global link", e.rg = ActLink(e.a, e.g))
     [] e.op = "patheq" -> Bad("path equality", (e.r = 1) = (e.c1 = e.c2 /\ e.l1 = e.l2))
                          \cup Bad("path hash", (e.c1 = e.c2 /\ e.l1 = e.l2) => e.h = 1)
     [] e.op = "cpoint" -> \* a point of the graph of a curve, <<D, x, T, t>>
          Bad("curve point", e.r = <<e.x[1], ActX(e.a, e.x[2], e.x[1]), e.x[3], ActT(e.a, e.x[4], e.x[3])>>)
     [] e.op = "allowed" -> \* allowed specs of the image class at (q, k) against those of the class
          LET G == e.G
              kk == IF e.a[3] = 1 THEN G + 1 - e.k ELSE e.k
          IN Bad("allowed specs of the image class", Seq2Set(e.r) = {SConj(s, e.a) : s \in Seq2Set(e.s)} /\ e.kk = kk
                 /\ Len(e.r) = Len(e.s))
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
