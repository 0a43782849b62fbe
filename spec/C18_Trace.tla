----------------------------- MODULE C18_Trace -----------------------------
(* C18, C19: estimates of the minimal dilation of a class, of a sequence of *)
(* classes.  Abstract state: for every class announced, the class and the   *)
(* bracket mn of its minimum (from its members, or from a hinted member:    *)
(* then only the upper half is known).                                      *)
EXTENDS TraceBase, ClassMin, BigNat

HintUp(cl, al, e) == IF ~IsMember(cl, al, e.hint[1]) THEN 0 - 2
                     ELSE Dil(e.hint[1], e.k, e.S, e.K, 14)[2]
Entry(e) == LET cl == TLCEval(MkClass(e))
                al == TLCEval(AllowedAll(cl))
                as == TLCEval(AlSeq(al))
                mn == TLCEval(IF e.hint = <<>> THEN MinDil(cl, as, e.k, e.S, e.K, 14) ELSE <<0, HintUp(cl, al, e)>>)
            IN [cl |-> cl, al |-> al, k |-> e.k, S |-> e.S, K |-> e.K, mn |-> mn]

RLe(a, b) == Leq(BMul(a[1], b[2]), BMul(b[1], a[2]))
\* up <= lo * (1 + 1/tol)
TolMet(lo, up, tol) == Leq(BScale(BMul(up[1], lo[2]), tol), BScale(BMul(lo[1], up[2]), tol + 1))
\* the witness is a member and its dilation is within [lo, up]
WitnessOk(x, C, lof, upc) ==
  LET r == TLCEval(Dil(C, x.k, x.S, x.K, 14))
  IN Bad("witness is a member", IsMember(x.cl, x.al, C))
     \cup Bad("dilation of the witness <= up", r[1] <= upc)
     \cup Bad("lo <= dilation of the witness", r[2] < 0 \/ lof <= r[2])

Est(x, e) ==
  Bad("lo <= minimum of the class", x.mn[2] < 0 \/ e.lof <= x.mn[2])
  \cup Bad("minimum of the class <= up", x.mn[1] < 0 \/ x.mn[1] <= e.upc)
  \cup Bad("lo <= up", RLe(e.lo, e.up))
  \cup Bad("tolerance met", e.tol = 0 \/ TolMet(e.lo, e.up, e.tol))
  \cup Bad("no better than the supplied bounds", /\ e.slo = <<>> \/ RLe(e.slo, e.lo)
                                                 /\ e.sup = <<>> \/ RLe(e.up, e.sup))
  \cup Bad("stopped only beyond the stop bound", e.stopped = 0 \/ TolMet(e.lo, e.up, e.tolw) \/ ~RLe(e.lo, e.stop))
  \cup (IF e.C = <<>> THEN Bad("no witness", e.nocurve = 1) ELSE WitnessOk(x, e.C[1], e.lof, e.upc))

\* ---- sequences; ids[i] = ids[j]: the same class occurs more than once
MinS(S) == FoldSet(LAMBDA x, y : IF x <= y THEN x ELSE y, 2000000000, S)
Up(mm, e, i)  == mm[e.ids[i]].mn[2]
Lo(mm, e, i)  == mm[e.ids[i]].mn[1]
Known(mm, e)  == {Up(mm, e, i) : i \in 1..Len(e.ids)} \ {0 - 1}
SeqJ(mm, e) ==
  LET N == Len(e.ids)
      best == MinS(Known(mm, e))                      \* min over all <= best/S
      low  == IF \E i \in 1..N : Lo(mm, e, i) < 0 THEN 0 - 1 ELSE MinS({Lo(mm, e, i) : i \in 1..N})
      ok   == e.boundf < 0 \/ best <= e.boundf        \* no a-priori bound, or one that certainly holds
      W(z) == mm[e.ids[e.idxs[z]]]
      dw   == TLCEval(Mat([z \in 1..Len(e.idxs) |-> IF z > 4 THEN <<0, 0 - 1>> ELSE Dil(e.curves[z], W(z).k, W(z).S, W(z).K, 14)]))
  IN IF e.found = 0 THEN Bad("nothing returned although a class is within the bound", ~ok)
     ELSE IF ~(/\ \A z \in 1..Len(e.idxs) : e.idxs[z] \in 1..N
               /\ Cardinality(Seq2Set(e.idxs)) = Len(e.idxs)
               /\ Len(e.curves) = Len(e.idxs) /\ Len(e.idxs) > 0)
          THEN {"indices valid and distinct, with a curve each"}
     ELSE Bad("lo <= minimum of all", e.lof <= best)
          \cup Bad("minimum of all <= up", low < 0 \/ ~ok \/ low <= e.upc)
          \cup Bad("lo <= up", RLe(e.lo, e.up))
          \cup Bad("tolerance met", TolMet(e.lo, e.up, e.tol))
          \cup Bad("up within the supplied bound", e.bound = <<>> \/ RLe(e.up, e.bound))
          \cup Bad("a class of least dilation is lost", \A i \in 1..N :
                     \/ i \in Seq2Set(e.idxs) \/ ~ok
                     \/ Up(mm, e, i) < 0
                     \/ \E j \in 1..N : e.ids[j] # e.ids[i] /\ (Lo(mm, e, j) < 0 \/ Lo(mm, e, j) <= Up(mm, e, i)))
          \cup Bad("class listed although it is much worse than the best", \A z \in 1..Len(e.idxs) :
                     ~ok \/ Lo(mm, e, e.idxs[z]) < 0 \/ Lo(mm, e, e.idxs[z]) <= e.upcw)
          \cup Bad("witness is a member of its class", \A z \in 1..Len(e.idxs) : IsMember(W(z).cl, W(z).al, e.curves[z]))
          \cup Bad("lo <= dilation of the witness", \A z \in 1..Len(e.idxs) : dw[z][2] < 0 \/ e.lof <= dw[z][2])
          \cup Bad("one of the curves is within up", ~ok \/ (e.bound # <<>> /\ ~(~RLe(e.bound, e.up)))
                                                      \/ \E z \in 1..Len(e.idxs) : dw[z][1] <= e.upc)

J(mm, e) ==
   CASE e.op = "class" -> LET x == TLCEval(Entry(e)) IN
          [m |-> IF e.first = 1 THEN <<x>> ELSE Append(mm, x), bad |-> Bad("hint is a member", x.mn[2] # 0 - 2)]
     [] e.op = "est" -> [m |-> mm, bad |-> Est(mm[Len(mm)], e)]
     [] e.op = "seq" -> [m |-> mm, bad |-> SeqJ(mm, e)]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
