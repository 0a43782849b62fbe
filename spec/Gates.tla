------------------------------- MODULE Gates -------------------------------
(* Gates (entrance/exit points of the patterns) of multifractals with m     *)
(* patterns.  Node 2p-1 is the entrance of pattern p, node 2p its exit.     *)
(* A gate system gives every node the cube it lies in and the node and      *)
(* isometry found there:  value(i) = (cube(i) + B(i) value(j(i))) / n .     *)
(* A tuple of links with all gates on the boundary is the gate tuple of     *)
(* some multifractal with continuous paths iff every link admits a path     *)
(* whose fractions carry images of the links of the tuple.                  *)
EXTENDS PathGen, Orbit

Facets(d) == {<<k, v>> : k \in 1..d, v \in {0, 1}}
Touches(n, c, f) == c[f[1]] = IF f[2] = 0 THEN 0 ELSE n - 1
MapFacet(a, f) == LET i == CHOOSE i \in 1..Len(a[1]) : a[1][i] = f[1] IN <<i, IF a[2][i] = 1 THEN 1 - f[2] ELSE f[2]>>

\* ordered pairs of first and last cubes up to isometries and reversal, both on the boundary
Grid(d, n) == {CubeAt(d, n, z) : z \in 0..(Exp(n, d) - 1)}
OnBoundary(n, c) == \E j \in 1..Len(c) : c[j] = 0 \/ c[j] = n - 1
PairImages(d, n, p) == UNION {{<<ActCube(a, n, p[1]), ActCube(a, n, p[2])>>, <<ActCube(a, n, p[2]), ActCube(a, n, p[1])>>} : a \in CubeMaps(d)}
PairLess(p, q) == LinkLess(p, q)
StdPairs(d, n) == LET B == {c \in Grid(d, n) : OnBoundary(n, c)}
                  IN {p \in B \X B : p[1] # p[2] /\ \A q \in PairImages(d, n, p) : LinkLe(p, q)}

\* value of a node: follow cubes until (isometry, node) repeats
RECURSIVE Follow(_, _, _, _, _, _, _)
Follow(n, cb, ch, B, i, seen, acc) ==
  IF \E q \in 1..Len(seen) : seen[q] = <<B, i>>
  THEN <<acc, CHOOSE q \in 1..Len(seen) : seen[q] = <<B, i>>>>
  ELSE Follow(n, cb, ch, Mul(B, ch[i][2]), ch[i][1], Append(seen, <<B, i>>), Append(acc, ActCube(B, n, cb[i])))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _, _)
GcdAll(xs, k, g) == IF k = 0 THEN g ELSE GcdAll(xs, k - 1, Gcd(xs[k], g))
RECURSIVE DigitsVal(_, _, _, _, _)
DigitsVal(n, acc, j, lo, hi) == IF hi < lo THEN 0 ELSE DigitsVal(n, acc, j, lo, hi - 1) * n + acc[hi][j]
\* reduced <<denominator, numerators>>
Reduced(D, x) == LET g == GcdAll(x, Len(x), D) IN <<D \div g, Mat([j \in 1..Len(x) |-> x[j] \div g])>>
Value(d, n, cb, ch, i) ==
  LET f == Follow(n, cb, ch, Id(d), i, <<>>, <<>>)
      acc == f[1]
      q == f[2]
      M == Exp(n, Len(acc) - q + 1) - 1
      D == Exp(n, q - 1) * M
  IN Reduced(D, Mat([j \in 1..d |-> DigitsVal(n, acc, j, 1, q - 1) * M + DigitsVal(n, acc, j, q, Len(acc))]))

\* choices of node i that are consistent with facet labels lab
ChoicesOf(d, lab, i) == {<<j, a>> \in (1..Len(lab)) \X CubeMaps(d) : MapFacet(a, lab[j]) = lab[i]}
LabelsOf(n, cb) == {l \in [1..Len(cb) -> Facets(Len(cb[1]))] : \A i \in 1..Len(cb) : Touches(n, cb[i], l[i])}
\* all value tuples of the systems with the given cubes, labels and choices of the first node;
\* isometries are coded by their position in cm: mt is the multiplication table, ct the images of the cubes
RECURSIVE FollowT(_, _, _, _, _, _)
FollowT(W, mt, ch, b, i, seen) ==
  LET st == b * W + i IN
  IF \E q \in 1..Len(seen) : seen[q] = st
  THEN <<seen, CHOOSE q \in 1..Len(seen) : seen[q] = st>>
  ELSE FollowT(W, mt, ch, mt[b][ch[i][2]], ch[i][1], Append(seen, st))
RECURSIVE DigT(_, _, _, _, _, _, _)
DigT(n, W, ct, seen, j, lo, hi) == IF hi < lo THEN 0 ELSE DigT(n, W, ct, seen, j, lo, hi - 1) * n + ct[seen[hi] \div W][seen[hi] % W][j]
Tables(d, n, cb) ==
  LET cm  == SetToSeq(CubeMaps(d))
      K   == Len(cm)
      no  == TLCEval([a \in CubeMaps(d) |-> CHOOSE k \in 1..K : cm[k] = a])
  IN [no |-> no, mt |-> Mat([k \in 1..K |-> Mat([l \in 1..K |-> no[Mul(cm[k], cm[l])]])]),
      ct |-> Mat([k \in 1..K |-> Mat([i \in 1..Len(cb) |-> ActCube(cm[k], n, cb[i])])])]
RawTuples(d, n, cb, lab, first, tb) ==
  LET no == tb.no
      mt == tb.mt
      ct == tb.ct
      W   == Len(cb) + 1
      opt == Mat([i \in 1..Len(cb) |-> TLCEval({<<o[1], no[o[2]]>> : o \in IF i = 1 THEN first ELSE ChoicesOf(d, lab, i)})])
      id  == no[Id(d)]
      Val(ch, i) ==
        LET f == FollowT(W, mt, ch, id, i, <<>>)
            q == f[2]
            M == Exp(n, Len(f[1]) - q + 1) - 1
        IN Reduced(Exp(n, q - 1) * M, Mat([j \in 1..d |-> DigT(n, W, ct, f[1], j, 1, q - 1) * M + DigT(n, W, ct, f[1], j, q, Len(f[1]))]))
      RECURSIVE Build(_)
      Build(k) == IF k = 0 THEN {<<>>} ELSE UNION {{Append(t, o) : o \in opt[k]} : t \in Build(k - 1)}
  IN {Mat([i \in 1..Len(cb) |-> Val(ch, i)]) : ch \in Build(Len(cb))}

InteriorDim(pt) == Cardinality({j \in 1..Len(pt[2]) : pt[2][j] # 0 /\ pt[2][j] # pt[1]})
AllBoundary(T) == \A i \in 1..Len(T) : InteriorDim(T[i]) < Len(T[i][2])
AllFacet(T) == \A i \in 1..Len(T) : InteriorDim(T[i]) = Len(T[i][2]) - 1
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmAll(_, _)
LcmAll(T, k) == IF k = 0 THEN 1 ELSE Lcm(LcmAll(T, k - 1), T[k][1])
OverD(pt, D) == Mat([j \in 1..Len(pt[2]) |-> pt[2][j] * (D \div pt[1])])
\* the standard form: <<D, links>>, links standard, sorted, over the least common denominator
RECURSIVE InsertLink(_, _)
InsertLink(l, s) == IF s = <<>> THEN <<l>> ELSE IF LinkLe(l, s[1]) THEN <<l>> \o s ELSE <<s[1]>> \o InsertLink(l, Tail(s))
RECURSIVE SortLinks(_, _)
SortLinks(s, k) == IF k = 0 THEN <<>> ELSE InsertLink(s[k], SortLinks(s, k - 1))
StdTuple(d, T) ==
  LET D == LcmAll(T, Len(T))
      m == Len(T) \div 2
      CM == CubeMaps(d)
      ls == Mat([p \in 1..m |-> LStd(<<OverD(T[2 * p - 1], D), OverD(T[2 * p], D)>>, D, CM)])
  IN <<D, SortLinks(ls, m)>>

\* existence of a path of points, depth first: at exit x of cube c, free cubes fr
RECURSIVE Extends(_, _, _, _, _, _)
Extends(D, ex, goal, c, x, fr) ==
  IF fr = {} THEN Mat([j \in 1..Len(c) |-> c[j] * D + x[j]]) = goal
  ELSE \E c2 \in fr :
         LET e2 == Mat([j \in 1..Len(c) |-> x[j] + (c[j] - c2[j]) * D]) IN
         /\ \A j \in 1..Len(c) : e2[j] >= 0 /\ e2[j] <= D
         /\ e2 \in DOMAIN ex
         /\ \E x2 \in ex[e2] : Extends(D, ex, goal, c2, x2, fr \ {c2})
Realisable(d, n, D, g) ==
  LET im   == UNION {{ActLink(a, g[p], D) : a \in Maps(d)} : p \in 1..Len(g)}
      ex   == TLCEval([e \in {l[1] : l \in im} |-> {l[2] : l \in {k \in im : k[1] = e}}])
      gr   == TLCEval(Grid(d, n))
      Goal(x) == Mat([j \in 1..d |-> n * x[j]])
  IN \A p \in 1..Len(g) :
       \E c \in gr :
         LET e == Mat([j \in 1..d |-> n * g[p][1][j] - c[j] * D]) IN
         /\ e \in DOMAIN ex
         /\ \E x \in ex[e] : Extends(D, ex, Goal(g[p][2]), c, x, gr \ {c})
============================================================================
