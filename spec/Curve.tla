------------------------------- MODULE Curve -------------------------------
(* Multifractal curves.  A curve is a record                                *)
(*   [d, n, p, pats], pats[k] = [c |-> cubes in order, s |-> specs]         *)
(* d dimension, n div, p selected pattern (1-based).  A spec <<map, q>> put *)
(* on a cube says: the curve on this cube is the map-image of pattern q.    *)
(* Undefined specs / cubes are the empty sequence.                          *)
(* Fractions are addressed by 1-based cube numbers.                         *)
EXTENDS Iso

Genus(C)       == Len(C.pats[1].c)
Mult(C)        == Len(C.pats)
Root(C, q)     == <<Id(C.d), q>>
\* number, in the stored pattern, of the k-th cube of the curve oriented by sp
Idx(C, sp, k)  == IF sp[1][3] = 1 THEN Genus(C) + 1 - k ELSE k
\* k-th cube and k-th fraction of the oriented curve sp * C
OCube(C, sp, k) == ActCube(sp[1], C.n, C.pats[sp[2]].c[Idx(C, sp, k)])
OSpec(C, sp, k) == LET t == C.pats[sp[2]].s[Idx(C, sp, k)] IN <<Mul(sp[1], t[1]), t[2]>>

\* orientation of the fraction with address ks (a sequence of cube numbers)
RECURSIVE Deep(_, _, _)
Deep(C, sp, ks) == IF ks = <<>> THEN sp ELSE Deep(C, OSpec(C, sp, Head(ks)), Tail(ks))
\* integer position (at scale n^Len(ks)) of the cube with address ks
RECURSIVE DeepCube(_, _, _)
DeepCube(C, sp, ks) ==
  IF ks = <<>> THEN [j \in 1..C.d |-> 0]
  ELSE LET c == OCube(C, sp, Head(ks))
           r == DeepCube(C, OSpec(C, sp, Head(ks)), Tail(ks))
           w == Exp(C.n, Len(ks) - 1)
       IN Mat([j \in 1..C.d |-> c[j] * w + r[j]])

\* address (length l) of the t-th (0-based) cube of depth l
Addr(G, t, l) == [k \in 1..l |-> 1 + ((t \div Exp(G, l - k)) % G)]

ActProto(a, n, c) == [k \in 1..Len(c) |->
     LET x == c[IF a[3] = 1 THEN Len(c) + 1 - k ELSE k] IN IF x = <<>> THEN x ELSE ActCube(a, n, x)]
ActSpecs(a, s)    == [k \in 1..Len(s) |->
     LET x == s[IF a[3] = 1 THEN Len(s) + 1 - k ELSE k] IN IF x = <<>> THEN x ELSE SConj(x, a)]
\* image of a curve under a map: t -> a(x(a t))
ActCurve(a, C) == [C EXCEPT !.pats = [q \in 1..Len(C.pats) |->
     [c |-> ActProto(a, C.n, C.pats[q].c), s |-> ActSpecs(a, C.pats[q].s)]]]
Select(C, q)   == [C EXCEPT !.p = q]

IsCurve(C) == /\ \A q \in 1..Mult(C) :
                   /\ Len(C.pats[q].c) = Exp(C.n, C.d) /\ Len(C.pats[q].s) = Exp(C.n, C.d)
                   /\ Cardinality({C.pats[q].c[k] : k \in 1..Genus(C)}) = Genus(C)
                   /\ \A k \in 1..Genus(C) : /\ \A j \in 1..C.d : C.pats[q].c[k][j] \in 0..(C.n - 1)
                                             /\ IsMap(C.pats[q].s[k][1]) /\ C.pats[q].s[k][2] \in 1..Mult(C)

-----------------------------------------------------------------------------
(* Consecutive fractions.  J = <<spec1, spec2, delta>>: fraction 2 follows  *)
(* fraction 1 in time and its cube is the cube of fraction 1 shifted by     *)
(* delta cubes.                                                             *)
BaseJ(C, q, k) == LET c == C.pats[q].c  s == C.pats[q].s
                  IN <<s[k], s[k + 1], Mat([j \in 1..C.d |-> c[k + 1][j] - c[k][j]])>>
\* the last sub-fraction of fraction 1 and the first sub-fraction of fraction 2
Derive(C, J)   == LET G == Genus(C)
                      c1 == OCube(C, J[1], G)
                      c2 == OCube(C, J[2], 1)
                  IN <<OSpec(C, J[1], G), OSpec(C, J[2], 1), Mat([j \in 1..C.d |-> c2[j] + C.n * J[3][j] - c1[j]])>>
Touch(J)       == \A j \in 1..Len(J[3]) : J[3][j] \in {-1, 0, 1}
\* exit of fraction 1 = entrance of fraction 2: the cubes touch at every depth
RECURSIVE Meets(_, _, _)
Meets(C, J, seen) == IF J \in seen THEN TRUE
                     ELSE IF ~Touch(J) THEN FALSE
                     ELSE Meets(C, Derive(C, J), seen \cup {J})
ContinuousPattern(C, q) == \A k \in 1..(Genus(C) - 1) : Meets(C, BaseJ(C, q, k), {})
Continuous(C)  == \A q \in 1..Mult(C) : ContinuousPattern(C, q)

\* documented standard form of a junction
StdJ(J) == LET swap == \/ J[1][2] > J[2][2]
                       \/ J[1][2] = J[2][2] /\ J[1][1][3] = 1 /\ J[2][1][3] = 1
               s1 == IF swap THEN SRev(J[2]) ELSE J[1]
               s2 == IF swap THEN SRev(J[1]) ELSE J[2]
               dx == IF swap THEN [j \in 1..Len(J[3]) |-> 0 - J[3][j]] ELSE J[3]
               g  == Inv(CubeOf(s1[1]))
           IN <<SAct(g, s1), SAct(g, s2), ActVec(g, dx)>>
\* the pair up to isometry and reversal of time: both ways of writing it
NormJ(J)   == LET g == Inv(CubeOf(J[1][1])) IN <<SAct(g, J[1]), SAct(g, J[2]), ActVec(g, J[3])>>
MirrorJ(J) == <<SRev(J[2]), SRev(J[1]), Mat([j \in 1..Len(J[3]) |-> 0 - J[3][j]])>>
ClassJ(J)  == {NormJ(J), NormJ(MirrorJ(J))}
BaseJs(C) == {StdJ(BaseJ(C, q, k)) : q \in 1..Mult(C), k \in 1..(Genus(C) - 1)}
\* layers: new junctions by depth, <<depth-1 set, depth-2 set, ...>>
RECURSIVE Layers(_, _, _, _)
Layers(C, cur, seen, acc) ==
  IF cur = {} THEN acc
  ELSE LET nxt == {StdJ(Derive(C, J)) : J \in cur} \ (seen \cup cur)
       IN Layers(C, nxt, seen \cup cur, Append(acc, cur))
JLayers(C) == Layers(C, BaseJs(C), {}, <<>>)
============================================================================
