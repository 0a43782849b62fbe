------------------------------- MODULE Arith -------------------------------
(* Exact arithmetic of the helpers: ratio functions, digit expansions.      *)
(* Rationals are pairs of BigNat naturals.                                  *)
EXTENDS BigNat, FiniteSets, TLC, SequencesExt, FiniteSetsExt
BSum(xs) == FoldLeft(LAMBDA a, b : BAdd(a, b), <<0>>, xs)
BMax(xs) == FoldLeft(LAMBDA a, b : IF Leq(a, b) THEN b ELSE a, <<0>>, xs)
Map1(xs, F(_)) == FoldLeft(LAMBDA a, b : Append(a, F(b)), <<>>, xs)
Squares(xs) == Map1(xs, LAMBDA x : BMul(x, x))
REq(a, b) == BEq(BMul(a[1], b[2]), BMul(b[1], a[2]))
\* |v_j| = v[j]/D, time t = <<tn, td>>
RatioLinf(d, v, D, t) == <<BMul(BPow(BMax(v), d), t[2]), BMul(BPow(D, d), t[1])>>
RatioL1(d, v, D, t)   == <<BMul(BPow(BSum(v), d), t[2]), BMul(BPow(D, d), t[1])>>
RatioL2(d, v, D, t)   == <<BMul(BPow(BSum(Squares(v)), d \div 2), t[2]), BMul(BPow(D, d), t[1])>>
RatioL2S(d, v, D, t)  == <<BMul(BPow(BSum(Squares(v)), d), BMul(t[2], t[2])), BMul(BPow(D, 2 * d), BMul(t[1], t[1]))>>
Ratio(k, d, v, D, t) == CASE k = "linf" -> RatioLinf(d, v, D, t) [] k = "l1" -> RatioL1(d, v, D, t)
                          [] k = "l2" -> RatioL2(d, v, D, t) [] k = "l2s" -> RatioL2S(d, v, D, t)
\* value of digits in a base (most significant first); digits and base are small
Horner(ds, base) == FoldLeft(LAMBDA a, x : BAdd(BScale(a, base), BOf(x)), <<0>>, ds)
PowB(base, k) == BPow(BOf(base), k)
\* x is the sum of the series: x = (n0 + y)/base^k with y = (np + y)/base^m
IsPeriodicSum(start, period, base, x) ==
  LET n0 == Horner(start, base)
      np == Horner(period, base)
      Q  == BSub(PowB(base, Len(period)), <<1>>)           \* y = np/Q
  IN REq(x, <<BAdd(BMul(n0, Q), np), BMul(PowB(base, Len(start)), Q)>>)
RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, a % b)
\* r is the least common multiple of xs, given the quotients
IsLcm(xs, r) == /\ r >= 1 /\ \A k \in 1..Len(xs) : r % xs[k] = 0
                /\ FoldLeft(LAMBDA g, x : Gcd2(r \div x, g), 0, xs) = (IF xs = <<>> THEN 0 ELSE 1)
                /\ (xs = <<>> => r = 1)
\* the same without a bound on the result; the xs below 2^16
BModS(a, x) == FoldLeft(LAMBDA r, k : (r * Base + a[Len(a) + 1 - k]) % x, 0, [k \in 1..Len(a) |-> k])
BLcm(xs) == FoldLeft(LAMBDA m, x : BScale(m, x \div Gcd2(x, BModS(m, x))), <<1>>, xs)
\* faces: 2 stands for a free coordinate
Faces(d, fd) == {f \in [1..d -> {0, 1, 2}] : Cardinality({j \in 1..d : f[j] = 2}) = fd}
\* choices with repetition within each group of positions with equal id, as sorted tuples
SortedIn(ids, t) == \A a, b \in 1..Len(ids) : a < b /\ ids[a] = ids[b] => t[a] <= t[b]
Picks(ids, size) == {t \in [1..Len(ids) -> 0..FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, 0, {size[i] : i \in 1..Len(size)})] :
                         /\ \A k \in 1..Len(ids) : t[k] < size[ids[k]]
                         /\ SortedIn(ids, t)}
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
SortSeq2(s) == FoldLeft(LAMBDA a, x : Insert(x, a), <<>>, s)
GroupOf(ids, t, g) == SortSeq2(SelectSeq([k \in 1..Len(ids) |-> IF ids[k] = g THEN t[k] ELSE 0 - 1], LAMBDA x : x >= 0))
Rank(ids, k) == Cardinality({j \in 1..k : ids[j] = ids[k]})
Canon(ids, t) == [k \in 1..Len(ids) |-> GroupOf(ids, t, ids[k])[Rank(ids, k)]]
============================================================================
