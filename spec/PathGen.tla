------------------------------ MODULE PathGen ------------------------------
(* Continuous paths with given links.  Gates (points or facet subsets) are  *)
(* boxes: per coordinate <<lo, hi>> over the scale D (points: lo = hi).     *)
(* A link is <<entrance box, exit box>>.                                    *)
EXTENDS FacetSet, PathSystem, SequencesExt

BoxM(a, D, A) == Mat(BoxMap(a, D, A))
LinkMap(a, D, l) == IF a[3] = 1 THEN <<BoxM(a, D, l[2]), BoxM(a, D, l[1])>> ELSE <<BoxM(a, D, l[1]), BoxM(a, D, l[2])>>
Images(d, D, links) == UNION {{LinkMap(a, D, links[k]) : a \in Maps(d)} : k \in 1..Len(links)}
RECURSIVE L1(_, _)
L1(v, k) == IF k = 0 THEN 0 ELSE L1(v, k - 1) + (IF v[k] < 0 THEN 0 - v[k] ELSE v[k])
Deltas(d, maxd) == {v \in {Mat(f) : f \in [1..d -> {-1, 0, 1}]} : L1(v, d) >= 1 /\ (maxd < 0 \/ L1(v, d) <= maxd)}
Times(k, A) == Mat([j \in 1..Len(A) |-> <<k * A[j][1], k * A[j][2]>>])
Moved(A, v, D) == Mat([j \in 1..Len(A) |-> <<A[j][1] + v[j] * D, A[j][2] + v[j] * D>>])

\* everything that depends on (d, n, links, limit) only
System(d, n, D, links, maxd) ==
  LET im   == SetToSeq(Images(d, D, links))
      NI   == Len(im)
      gates == {im[k][1] : k \in 1..NI}                    \* images are closed under reversal
      dl   == Deltas(d, maxd)
      \* which gates continue a given gate across a step
      meet == TLCEval([g \in gates |-> {<<v, h>> \in dl \X gates : BoxMeets(g, Moved(h, v, D))}])
      byEntr == TLCEval([g \in gates |-> {k \in 1..NI : im[k][1] = g}])
      N    == Exp(n, d)
      foll == Mat([k \in 1..NI |-> TLCEval(UNION {{<<vh[1], j>> : j \in byEntr[vh[2]]} : vh \in meet[im[k][2]]})])
      succ == Mat([z \in 1..(N * NI) |->
                LET c == CubeAt(d, n, (z - 1) \div NI)
                    k == 1 + ((z - 1) % NI)
                IN TLCEval({No(n, Plus(c, w[1])) * NI + w[2] - 1 : w \in {x \in foll[k] : InGrid(n, Plus(c, x[1]))}})])
  IN [d |-> d, n |-> n, D |-> D, im |-> im, NI |-> NI, N |-> N, succ |-> succ]

\* nodes of the first / last fraction for a global link
StartOf(S, g) == {z \in 0..(S.N * S.NI - 1) : BoxMeets(Times(S.n, g), Moved(S.im[1 + (z % S.NI)][1], CubeAt(S.d, S.n, z \div S.NI), S.D))}
FinishOf(S, g) == {z \in 0..(S.N * S.NI - 1) : BoxMeets(Times(S.n, g), Moved(S.im[1 + (z % S.NI)][2], CubeAt(S.d, S.n, z \div S.NI), S.D))}
PathsOfLink(S, l) == AllPaths(S.NI, S.N, S.succ, StartOf(S, l[1]), FinishOf(S, l[2]))
\* paths consistent with a parent: same cubes, every link meets the parent's
LMeets(a, b) == BoxMeets(a[1], b[1]) /\ BoxMeets(a[2], b[2])
PathsOfParent(S, cubes, pl) ==
  LET ok == Mat([k \in 1..S.N |-> TLCEval({No(S.n, cubes[k]) * S.NI + i - 1 : i \in {j \in 1..S.NI : LMeets(S.im[j], pl[k])}})])
      P[k \in 1..S.N] == IF k = 1 THEN {<<z>> : z \in ok[1]}
                         ELSE UNION {{Append(p, z) : z \in S.succ[p[k - 1] + 1] \cap ok[k]} : p \in P[k - 1]}
  IN P[S.N]

\* action of a base map on coded paths
ImNo(S, l) == IF \E k \in 1..S.NI : S.im[k] = l THEN CHOOSE k \in 1..S.NI : S.im[k] = l ELSE 0
NodeAct(S, a) ==
  LET lm == Mat([k \in 1..S.NI |-> ImNo(S, LinkMap(a, S.D, S.im[k]))])
      cm == Mat([c \in 1..S.N |-> No(S.n, ActCube(a, S.n, CubeAt(S.d, S.n, c - 1)))])
  IN <<a[3], lm, cm>>
PathAct(S, na, p) == LET q == Mat([k \in 1..Len(p) |-> na[3][1 + (p[k] \div S.NI)] * S.NI + na[2][1 + (p[k] % S.NI)] - 1])
                     IN IF na[1] = 1 THEN Rvs(q) ELSE q
LinkStab(S, l) == {a \in Maps(S.d) : LinkMap(a, S.D, l) = l}
ParentStab(S, cubes, pl) == {a \in Maps(S.d) :
   LET at(k) == IF a[3] = 1 THEN S.N + 1 - k ELSE k IN
   \A k \in 1..S.N : ActCube(a, S.n, cubes[at(k)]) = cubes[k] /\ LinkMap(a, S.D, pl[at(k)]) = pl[k]}
\* number of multisets of size m from r elements
RECURSIVE Multi(_, _)
Multi(r, m) == IF m = 0 THEN 1 ELSE IF r = 0 THEN 0 ELSE (Multi(r, m - 1) * (r + m - 1)) \div m
============================================================================
