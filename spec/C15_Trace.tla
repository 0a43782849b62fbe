----------------------------- MODULE C15_Trace -----------------------------
EXTENDS TraceBase, SubsetGeo

\* r: list of <<cube, numerators, denominator>>; want: set of <<cube, numerators over D>>
PSame(r, want, D) == /\ Len(r) = Cardinality(want)
                     /\ {<<r[k][1], Mat([j \in 1..Len(r[k][2]) |-> (r[k][2][j] * D) \div r[k][3]])>> : k \in 1..Len(r)} = want
                     /\ \A k \in 1..Len(r) : \A j \in 1..Len(r[k][2]) : (r[k][2][j] * D) % r[k][3] = 0
REq(x, D, y, E) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : x[j] * E = y[j] * D
Point(e) ==
  Bad("mapping into a cube", REq(e.to[1], e.to[2], PMapTo(e.n, e.c, e.D, e.x), e.n * e.D))
  \cup Bad("neighbour cubes", PSame(e.nb, PNeighbours(e.x, e.D), e.D))
  \cup (IF \A j \in 1..Len(e.x) : e.x[j] >= 0 /\ e.x[j] <= e.D THEN
          Bad("division into sub-cubes", PSame(e.dv, PDivide(e.x, e.D, e.n), e.D))
          \cup Bad("face dimension", e.fd = FaceDim(e.x, e.D)) ELSE {})
  \cup Bad("isometry", REq(e.im[1], e.im[2], ActX(e.a, e.x, e.D), e.D))
  \cup Bad("affine transform", REq(e.tr[1], e.tr[2], Affine(e.x, e.D, e.sc[1], e.sc[2], e.sh, e.shD), e.D * e.sc[2] * e.shD))
  \cup Bad("scaling", REq(e.ts[1], e.ts[2], Affine(e.x, e.D, e.sc[1], e.sc[2], Mat([j \in 1..Len(e.x) |-> 0]), 1), e.D * e.sc[2]))
  \cup Bad("shifting", REq(e.tt[1], e.tt[2], Affine(e.x, e.D, 1, 1, e.sh, e.shD), e.D * e.shD))
Pair(e) == \* points or links over a common denominator, flattened
  LET less == LexLess(e.x, e.y) IN
  Bad("order", (e.lt = 1) <=> less) \cup Bad("equality", (e.eq = 1) <=> (e.x = e.y)) \cup Bad("intersection", (e.it = 1) <=> (e.x = e.y))
  \cup Bad("equal objects have equal hashes", e.x = e.y => e.hq = 1)
FB(e, s) == FBox(e.d, e.n, s, e.L)
FSame(e, r, want) == Len(r) = Cardinality(want) /\ {<<r[k][1], FB(e, r[k][2])>> : k \in 1..Len(r)} = want
Facet(e) ==
  LET U == Exp(e.n, e.L)
      A == Mat(FB(e, e.s)) IN
  Bad("neighbour cubes", FSame(e, e.nb, FNeighbours(A, U, e.s[1])))
  \cup Bad("division into sub-cubes", FSame(e, e.dv, FDivide(A, U, e.s[1], e.n)))
  \cup Bad("isometry", FB(e, e.im) = BoxMap(e.a, U, A))
  \cup Bad("mapping into a cube", BScale(FB(e, e.to), e.n) = BMove(A, e.c, U))
FPair(e) ==
  LET A == FB(e, e.s)  B == FB(e, e.t) IN
  Bad("intersection", (e.it = 1) <=> BoxMeets(A, B)) \cup Bad("equality", (e.eq = 1) <=> (e.s = e.t))
  \cup Bad("equal objects have equal hashes", e.s = e.t => e.hq = 1)
\* comparison matrix of pairwise different sets: a strict total order
Order(e) == LET N == 1..Len(e.lt) IN
  Bad("irreflexive", \A i \in N : e.lt[i][i] = 0)
  \cup Bad("total", \A i \in N : \A j \in N : i # j => e.lt[i][j] + e.lt[j][i] = 1)
  \cup Bad("transitive", \A i \in N : \A j \in N : \A k \in N : (e.lt[i][j] = 1 /\ e.lt[j][k] = 1) => e.lt[i][k] = 1)
\* links of points (flattened entrance and exit)
Link(e) == Bad("isometry", IF e.a[3] = 1 THEN REq(e.im[1], e.imD, ActX(e.a, e.x[2], e.D), e.D) /\ REq(e.im[2], e.imD, ActX(e.a, e.x[1], e.D), e.D)
                           ELSE REq(e.im[1], e.imD, ActX(e.a, e.x[1], e.D), e.D) /\ REq(e.im[2], e.imD, ActX(e.a, e.x[2], e.D), e.D))
           \cup Bad("reversal", e.inv = <<e.x[2], e.x[1]>>)
           \cup Bad("transform", \A z \in 1..2 : REq(e.tr[z], e.trD, Affine(e.x[z], e.D, e.sc[1], e.sc[2], e.sh, e.shD), e.D * e.sc[2] * e.shD))
FLinkE(e) == LET M(s) == BoxMap(e.a, Exp(e.n, e.L), FB(e, s)) IN
           Bad("isometry", IF e.a[3] = 1 THEN FB(e, e.im[1]) = M(e.x[2]) /\ FB(e, e.im[2]) = M(e.x[1]) ELSE FB(e, e.im[1]) = M(e.x[1]) /\ FB(e, e.im[2]) = M(e.x[2]))
           \cup Bad("intersection", (e.it = 1) <=> (BoxMeets(FB(e, e.x[1]), FB(e, e.y[1])) /\ BoxMeets(FB(e, e.x[2]), FB(e, e.y[2]))))
           \cup Bad("equality", (e.eq = 1) <=> (e.x = e.y))
J(mm, e) == [m |-> mm, bad |-> CASE e.op = "point" -> Point(e) [] e.op = "pair" -> Pair(e) [] e.op = "facet" -> Facet(e) [] e.op = "fpair" -> FPair(e)
                                 [] e.op = "order" -> Order(e) [] e.op = "link" -> Link(e) [] e.op = "flink" -> FLinkE(e) [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
