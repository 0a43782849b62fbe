------------------------------- MODULE Class -------------------------------
(* Classes of curves: prototypes with links (pointed paths), a group of     *)
(* admissible base maps and some fractions already specified.               *)
(*   cl = [d, n, D, p, G, pats]                                             *)
(*   pats[q] = [c |-> cubes, l |-> links <<entrance, exit>> over D,         *)
(*              s |-> specs (<<>> where not specified)]                     *)
(*   G: the admissible base maps.                                           *)
EXTENDS Curve

CLink(a, k, D) == LET e == ActX(a, k[1], D)  x == ActX(a, k[2], D)
                  IN IF a[3] = 1 THEN <<x, e>> ELSE <<e, x>>
\* link of the whole pattern, over n*D
GLink(cl, q) == LET P == cl.pats[q]
                    e == P.l[1][1]  x == P.l[Len(P.l)][2]  c == P.c[1]  f == P.c[Len(P.c)]
                IN <<Mat([j \in 1..cl.d |-> c[j] * cl.D + e[j]]), Mat([j \in 1..cl.d |-> f[j] * cl.D + x[j]])>>
Scaled(cl, k) == <<Mat([j \in 1..cl.d |-> cl.n * k[1][j]]), Mat([j \in 1..cl.d |-> cl.n * k[2][j]])>>
\* the specs that put an admissible image of a pattern with the required gates on fraction k of pattern q
Admissible(cl, q, k) ==
  LET w == Scaled(cl, cl.pats[q].l[k])
  IN UNION {LET g == GLink(cl, pn) IN {<<a, pn>> : a \in {b \in cl.G : CLink(b, g, cl.n * cl.D) = w}} : pn \in 1..Len(cl.pats)}
Allowed(cl, q, k) == LET s == cl.pats[q].s[k] IN IF s # <<>> THEN {s} ELSE Admissible(cl, q, k)
AllowedAll(cl) == Mat([q \in 1..Len(cl.pats) |-> Mat([k \in 1..Len(cl.pats[q].c) |-> Allowed(cl, q, k)])])
\* a fully specified curve C over the same prototypes is a member
IsMember(cl, al, C) == /\ C.d = cl.d /\ C.n = cl.n /\ Len(C.pats) = Len(cl.pats)
                       /\ \A q \in 1..Len(cl.pats) : /\ C.pats[q].c = cl.pats[q].c
                                                     /\ Len(C.pats[q].s) = Len(C.pats[q].c)
                                                     /\ \A k \in 1..Len(C.pats[q].s) : C.pats[q].s[k] \in al[q][k]
\* operations
Specify(cl, q, k, sp) == [cl EXCEPT !.pats[q].s[k] = sp]
ClassAct(cl, a) ==
  [cl EXCEPT !.G = {Conj(g, a) : g \in cl.G},
             !.pats = Mat([q \in 1..Len(cl.pats) |->
                 LET P == cl.pats[q]
                     L == Len(P.c)
                     at(k) == IF a[3] = 1 THEN L + 1 - k ELSE k
                 IN [c |-> Mat([k \in 1..L |-> ActCube(a, cl.n, P.c[at(k)])]),
                     l |-> Mat([k \in 1..L |-> CLink(a, P.l[at(k)], cl.D)]),
                     s |-> Mat([k \in 1..L |-> LET x == P.s[at(k)] IN IF x = <<>> THEN x ELSE SConj(x, a)])]])]
============================================================================
