------------------------------ MODULE Dilation -----------------------------
(* Dilation of a multifractal curve:  sup ||x(s)-x(t)||^d / |s-t|.          *)
(* The system is a pair of fractions of one size, seen from the first one:  *)
(*   <<spec1, spec2, dx, dt>>   fraction 2 starts dt units of time later    *)
(*                              and its cube is shifted by dx cubes.        *)
(* Dividing both fractions is the transition.  Scale invariance makes equal *)
(* pairs of different depth one state; isometries are factored out.         *)
(* Bounds of a pair (a fraction fills its cube, so some two of its points   *)
(* are as far apart as the far corners):                                    *)
(*   ||far||^d / (dt+1)  <=  dilation of the pair  <=  ||far||^d / (dt-1)   *)
EXTENDS Curve, TLC, SequencesExt, FiniteSetsExt

MaxOf(S)  == FoldSet(LAMBDA x, y : IF x >= y THEN x ELSE y, 0 - 2000000000, S)
RECURSIVE SumTo(_, _), SqTo(_, _), MaxTo(_, _)
SumTo(v, k) == IF k = 1 THEN v[1] ELSE v[k] + SumTo(v, k - 1)
SqTo(v, k)  == IF k = 1 THEN v[1] * v[1] ELSE v[k] * v[k] + SqTo(v, k - 1)
MaxTo(v, k) == IF k = 1 THEN v[1] ELSE LET r == MaxTo(v, k - 1) IN IF r >= v[k] THEN r ELSE v[k]
\* a * s / b, rounded down (up = 0) or up (up = 1), without overflow for moderate a
MulDiv(a, s, b, up) == LET q == a \div b  r == (a % b) * s  IN q * s + (r \div b) + (IF up = 1 /\ (r % b) # 0 THEN 1 ELSE 0)

\* value of the ratio at scale S for distance vector v (coordinates as positive integers) and time t
Val(kind, v, t, S, up) ==
  LET d == Len(v) IN
  CASE kind = "linf" -> MulDiv(Exp(MaxTo(v, d), d), S, t, up)
    [] kind = "l1"   -> MulDiv(Exp(SumTo(v, d), d), S, t, up)
    [] kind = "l2"   -> MulDiv(Exp(SqTo(v, d), d \div 2), S, t, up)   \* d even
    [] kind = "l2s"  -> LET u == SqTo(v, d) IN                         \* squared
                        IF d = 1 THEN LET w == MulDiv(v[1], 256, t, up) IN MulDiv(w * w, S, 65536, up)
                        ELSE IF d = 2 THEN LET w == MulDiv(u, 256, t, up) IN MulDiv(w * w, S, 65536, up)
                        ELSE IF d = 4 THEN LET w == MulDiv(u * u, 64, t, up) IN MulDiv(w * w, S, 4096, up)
                        ELSE LET w1 == MulDiv(u, 32768, t, up)                                     \* d = 3
                                 w2 == MulDiv(w1, u, t, up)
                             IN MulDiv(w2 * u, S, 32768, up)

Far(dx) == Mat([j \in 1..Len(dx) |-> IF dx[j] < 0 THEN 1 - dx[j] ELSE dx[j] + 1])
LoVal(kind, S, dx, dt) == Val(kind, Far(dx), dt + 1, S, 0)
UpVal(kind, S, dx, dt) == Val(kind, Far(dx), dt - 1, S, 1)

Roots(C) == {<<Root(C, q), Root(C, q), [j \in 1..C.d |-> 0], 0>> : q \in 1..Mult(C)}

\* sub-fractions of an oriented fraction, with the isometry that normalises them
SubFr(C, sp) == Mat([k \in 1..Genus(C) |-> LET s == OSpec(C, sp, k) IN <<OCube(C, sp, k), s, Inv(CubeOf(s[1]))>>])
\* pairs of sub-fractions that may exceed the value thr (scale S); adjacent pairs always may
Kids(C, kind, S, P, thr) ==
  LET G == Genus(C)
      A == TLCEval(SubFr(C, P[1]))
      B == LET X ==  IF P[4] = 0 THEN A ELSE SubFr(C, P[2])
           IN TLCEval(Mat([j \in 1..G |-> <<Mat([k \in 1..C.d |-> X[j][1][k] + C.n * P[3][k]]), X[j][2]>>]))
      Kid(i, j) ==
        LET t == P[4] * G + (j - i)
            b == B[j][1]
            a == A[i][1]
            x == Mat([k \in 1..C.d |-> b[k] - a[k]])
        IN IF t > 1 /\ UpVal(kind, S, x, t) <= thr THEN {}
           ELSE {<<SAct(A[i][3], A[i][2]), SAct(A[i][3], B[j][2]), ActVec(A[i][3], x), t>>}
  IN UNION {Kid(i, j) : i \in 1..G, j \in 1..G}

\* for a pair of equal fractions only i < j counts (i = j is a root again)
KidsOf(C, kind, S, P, thr) == {Q \in Kids(C, kind, S, P, thr) : Q[4] > 0}

\* Best-known lower bound and remaining pairs, layer by layer.
\* Everything ever dropped is bounded by lo * (K + 1) / K.
Slack(lo, K) == lo + MulDiv(lo, 1, K, 1)
\* one layer; st = <<frontier, pairs seen, lower bound>>; given up as soon as the bound exceeds cap (cap < 0: never)
Layer(C, kind, S, K, cap, st) ==
  IF st[1] = {} \/ (cap >= 0 /\ st[3] > cap) THEN st
  ELSE LET thr == Slack(st[3], K)
           new == TLCEval((UNION {KidsOf(C, kind, S, P, thr) : P \in st[1]}) \ st[2])
           lo2 == TLCEval(MaxOf({st[3]} \cup {LoVal(kind, S, P[3], P[4]) : P \in new}))
           th2 == TLCEval(Slack(lo2, K))
           F2  == TLCEval({P \in new : P[4] <= 1 \/ UpVal(kind, S, P[3], P[4]) > th2})
       IN <<F2, TLCEval(st[2] \cup F2), lo2>>
\* <<lo, up>> at scale S: lo/S <= dilation <= up/S, up - lo about lo/K; up = -1 (unknown) when given up or
\* when the level budget ends with adjacent pairs
DilCap(C, kind, S, K, lev, cap) ==
  LET st == TLCEval(FoldLeft(LAMBDA x, l : Layer(C, kind, S, K, cap, x), <<Roots(C), {}, 0>>, [l \in 1..lev |-> l]))
  IN IF st[1] = {} THEN <<st[3], Slack(st[3], K)>>
     ELSE IF (cap >= 0 /\ st[3] > cap) \/ \E P \in st[1] : P[4] <= 1 THEN <<st[3], 0 - 1>>
     ELSE <<st[3], MaxOf({Slack(st[3], K)} \cup {UpVal(kind, S, P[3], P[4]) : P \in st[1]})>>
Dil(C, kind, S, K, lev) == DilCap(C, kind, S, K, lev, 0 - 1)
============================================================================
