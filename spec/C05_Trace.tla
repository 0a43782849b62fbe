----------------------------- MODULE C05_Trace -----------------------------
(* C05: subdivisions and deep fractions follow the recursive definition.    *)
EXTENDS TraceBase, Curve

J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "sub" -> \* e.r = k-th subdivision of e.C, e.l = k + 1; samples (t, cube, spec) per pattern
          LET G == Genus(e.C)
          IN Bad("shape", e.rn = Exp(e.C.n, e.l) /\ e.rd = e.C.d /\ e.rlen = [q \in 1..Mult(e.C) |-> Exp(G, e.l)])
             \cup Bad("selected pattern", e.rp = e.C.p)
             \cup Bad("cubes", \A k \in 1..Len(e.smp) : LET s == e.smp[k]
                                   IN s[3] = DeepCube(e.C, Root(e.C, s[1]), Addr(G, s[2], e.l)))
             \cup Bad("orientations", \A k \in 1..Len(e.smp) : LET s == e.smp[k]
                                   IN s[4] = Deep(e.C, Root(e.C, s[1]), Addr(G, s[2], e.l)))
     [] e.op = "deep" -> \* address e.ks is zero-based in the code
          Bad("deep orientation", e.r = Deep(e.C, Root(e.C, e.q), [k \in 1..Len(e.ks) |-> e.ks[k] + 1]))
     [] e.op = "frac" -> \* fraction number k of the curve as a curve of its own
          LET s == e.C.pats[e.C.p].s[e.k]
              want == Select(ActCurve(s[1], e.C), s[2])
          IN Bad("fraction", e.r.pats = want.pats /\ e.r.p = want.p)
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
