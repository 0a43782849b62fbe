----------------------------- MODULE C23_Trace -----------------------------
(* C23: reports of the search command.  A configuration is given by d, n,   *)
(* m, the distance limit, facet-gated or not and the listed gates (none:    *)
(* all); it consists of the continuous curves whose patterns have these     *)
(* gates.  Curves come with their gates [C, g], g = <<D, links>>; the gates *)
(* are re-established from their defining equations.  A hint is a curve of  *)
(* the configuration: the minimum is at most its dilation.                  *)
EXTENDS TraceBase, Class, Dilation, BigNat

GcdN(a, b) == LET RECURSIVE g(_, _)
                  g(x, y) == IF y = 0 THEN x ELSE g(y, x % y) IN g(a, b)
Lcm2(a, b) == (a \div GcdN(a, b)) * b
Sc(x, k) == Mat([j \in 1..Len(x) |-> k * x[j]])
\* entrance = (first cube + image of the entrance (or exit) of the pattern on it) / n, exit likewise
GatesHold(C, g) ==
  /\ Len(g[2]) = Len(C.pats)
  /\ \A q \in 1..Len(C.pats) :
       LET P == C.pats[q]
           G == Len(P.c)
           At(k, first) == LET s == P.s[k]
                               l == g[2][s[2]]
                               x == IF first = (s[1][3] = 0) THEN l[1] ELSE l[2]
                               y == ActX(s[1], x, g[1])
                           IN Mat([j \in 1..C.d |-> P.c[k][j] * g[1] + y[j]])
       IN Sc(g[2][q][1], C.n) = At(1, TRUE) /\ Sc(g[2][q][2], C.n) = At(G, FALSE)
SameGates(d, g, t) ==
  LET L == Lcm2(g[1], t[1])
      a == Mat([q \in 1..Len(g[2]) |-> <<Sc(g[2][q][1], L \div g[1]), Sc(g[2][q][2], L \div g[1])>>])
      b == Mat([q \in 1..Len(t[2]) |-> <<Sc(t[2][q][1], L \div t[1]), Sc(t[2][q][2], L \div t[1])>>])
  IN Len(a) = Len(b) /\ \E x \in CubeMaps(d) : \A q \in 1..Len(a) :
        LET z == <<ActX(x, a[q][1], L), ActX(x, a[q][2], L)>> IN z = b[q] \/ <<z[2], z[1]>> = b[q]
Inner(D, x) == Cardinality({j \in 1..Len(x) : x[j] # 0 /\ x[j] # D})
AllPts(g, P(_)) == \A q \in 1..Len(g[2]) : \A k \in 1..2 : P(Inner(g[1], g[2][q][k]))
Dist(a, b) == FoldLeft(LAMBDA s, j : s + (IF a[j] < b[j] THEN b[j] - a[j] ELSE a[j] - b[j]), 0, [j \in 1..Len(a) |-> j])
InConf(e, x) ==
  LET C == x.C  g == x.g IN
  Bad("curve of the configuration: shape", C.d = e.d /\ C.n = e.n /\ Len(C.pats) = e.m /\ IsCurve(C))
  \cup Bad("curve of the configuration: continuous", Continuous(C))
  \cup Bad("curve of the configuration: gates", /\ GatesHold(C, g)
                        /\ (e.gates = <<>> \/ \E k \in 1..Len(e.gates) : SameGates(e.d, g, e.gates[k])))
  \cup Bad("curve of the configuration: facet gates", IF e.facet = 1 THEN AllPts(g, LAMBDA z : z = e.d - 1) ELSE AllPts(g, LAMBDA z : z < e.d))
  \cup Bad("curve of the configuration: distance of neighbours", e.cdist < 0 \/
            \A q \in 1..Len(C.pats) : \A k \in 1..(Len(C.pats[q].c) - 1) : Dist(C.pats[q].c[k], C.pats[q].c[k + 1]) <= e.cdist)

RLe(a, b) == Leq(BMul(a[1], b[2]), BMul(b[1], a[2]))
TolMet(lo, up, tol) == Leq(BScale(BMul(up[1], lo[2]), tol), BScale(BMul(lo[1], up[2]), tol + 1))
Report(e) ==
  LET hd == TLCEval(Mat([k \in 1..Len(e.hints) |-> Dil(e.hints[k].C, e.k, e.S, e.K, 14)[2]]))
      ups == {hd[k] : k \in 1..Len(hd)} \ {0 - 1}
      best == FoldSet(LAMBDA x, y : IF x <= y THEN x ELSE y, 2000000000, ups)      \* min <= best/S
      ok == ups # {} /\ (e.boundf < 0 \/ best <= e.boundf)       \* something satisfies the bound
      dw == TLCEval(IF e.found = 0 THEN <<>> ELSE Mat([z \in 1..Len(e.curves) |-> IF z > 5 THEN <<0, 0 - 1>> ELSE Dil(e.curves[z].C, e.k, e.S, e.K, 14)]))
  IN UNION {InConf(e, e.hints[k]) : k \in 1..Len(e.hints)}
     \cup (IF e.found = 0 THEN Bad("NOT FOUND although a curve satisfies the bound", ~ok)
           ELSE Bad("curves printed", Len(e.curves) > 0)
                \cup UNION {InConf(e, e.curves[z]) : z \in 1..Len(e.curves)}
                \cup Bad("lower bound <= minimum", e.lof <= best)
                \cup Bad("lower bound <= upper bound", RLe(e.lo, e.up))
                \cup Bad("bounds printed as numbers agree", e.fl = 1)
                \cup Bad("tolerance met", TolMet(e.lo, e.up, e.tol))
                \cup Bad("upper bound within the supplied one", e.bound = <<>> \/ RLe(e.up, e.bound))
                \cup Bad("a printed curve attains the upper bound", ~ok \/ (e.bound # <<>> /\ RLe(e.bound, e.up))
                           \/ \E z \in 1..Len(e.curves) : dw[z][1] <= e.upc)
                \cup Bad("printed curve below the lower bound", \A z \in 1..Len(e.curves) : dw[z][2] < 0 \/ e.lof <= dw[z][2])
                \cup Bad("printed curve far above the upper bound", \A z \in 1..Len(e.curves) : dw[z][1] <= e.upcw))
J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "run"    -> Bad("the command fails", e.rc = 0) \cup Bad("number of reports", e.rc # 0 \/ e.blocks = e.want)
     [] e.op = "report" -> Report(e)
     [] e.op = "gates"  -> Bad("the command fails", e.rc = 0)
                           \cup Bad("gate configurations printed", e.rc # 0 \/ (Len(e.out) = Len(e.want) /\ Seq2Set(e.out) = Seq2Set(e.want)))
     [] e.op = "refused" -> Bad("nonsense accepted", e.rc # 0 /\ e.printed = 0)
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
