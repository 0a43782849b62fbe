------------------------------ MODULE ClassMin -----------------------------
(* Minimal dilation over the members of a class, by enumerating the members *)
(* (small classes) and the branch and bound of module Dilation.             *)
EXTENDS Class, Dilation, SequencesExt

GroupFor(g, gl, d) == IF g = "full" THEN Maps(d) ELSE IF g = "cube" THEN CubeMaps(d) ELSE {gl[k] : k \in 1..Len(gl)}
\* class of a recorded description: paths with links over D, group, specs already fixed (<<>> where free)
MkClass(e) == TLCEval([d |-> e.d, n |-> e.n, D |-> e.D, p |-> 1, G |-> TLCEval(GroupFor(e.g, e.gl, e.d)),
               pats |-> Mat([q \in 1..Len(e.paths) |-> [c |-> e.paths[q].c, l |-> e.paths[q].l, s |-> e.fix[q]]])])
\* allowed specs as sequences, so that members are numbered
RECURSIVE S2Q(_)
S2Q(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o S2Q(S \ {x})
AlSeq(al) == TLCEval(Mat([q \in 1..Len(al) |-> Mat([k \in 1..Len(al[q]) |-> S2Q(al[q][k])])]))
RECURSIVE CountFrom(_, _)
CountFrom(fl, z) == IF z > Len(fl) THEN 1 ELSE LET r == CountFrom(fl, z + 1) IN IF r > 1000000 THEN r ELSE r * fl[z]
FlatLen(as) == LET L == Len(as[1]) IN Mat([z \in 1..(Len(as) * L) |-> Len(as[1 + ((z - 1) \div L)][1 + ((z - 1) % L)])])
\* number of members (capped)
NMembers(as) == CountFrom(FlatLen(as), 1)
RECURSIVE Digits(_, _, _)
Digits(t, fl, z) == IF z > Len(fl) THEN <<>> ELSE <<1 + (t % fl[z])>> \o Digits(t \div fl[z], fl, z + 1)
\* member number t (from 0)
MemberNo(cl, as, t) ==
  LET ds == Digits(t, FlatLen(as), 1)
      L  == Len(as[1])
  IN [d |-> cl.d, n |-> cl.n, p |-> 1, pats |-> Mat([q \in 1..Len(cl.pats) |->
        [c |-> cl.pats[q].c, s |-> Mat([k \in 1..L |-> as[q][k][ds[(q - 1) * L + k]]])]])]

\* <<lo, up>>: lo/S <= min over the members <= up/S
Better(cl, as, kind, S, K, lev, best, t) ==
  LET r == DilCap(MemberNo(cl, as, t), kind, S, K, lev, best[2])
  IN IF r[2] < 0 /\ best[2] >= 0 /\ r[1] > best[2] THEN best
     ELSE <<IF best[1] < 0 \/ r[1] < best[1] THEN r[1] ELSE best[1],
            IF r[2] >= 0 /\ (best[2] < 0 \/ r[2] < best[2]) THEN r[2] ELSE best[2]>>
MinDil(cl, as, kind, S, K, lev) ==
  FoldLeft(LAMBDA best, t : Better(cl, as, kind, S, K, lev, best, t), <<0 - 1, 0 - 1>>, [t \in 1..NMembers(as) |-> t - 1])
============================================================================
