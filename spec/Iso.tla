-------------------------------- MODULE Iso --------------------------------
(* The group of base maps: isometries of the cube [0,1]^d together with an  *)
(* optional reversal of time, and its actions.                              *)
(*   map a = <<p, f, r>> :  y_i = x_{p[i]} or 1 - x_{p[i]} (f[i] = 1),      *)
(*                          r = 1 iff time is reversed.                     *)
(* A spec is <<map, pattern>>.                                              *)
EXTENDS Integers, Sequences, FiniteSets

\* the same sequence, evaluated at once by TLC (functions are otherwise evaluated lazily, again at every use)
Mat(f) == f \o <<>>

Id(d)      == <<[i \in 1..d |-> i], [i \in 1..d |-> 0], 0>>
Dim(a)     == Len(a[1])
IsMap(a)   == /\ {a[1][i] : i \in 1..Len(a[1])} = 1..Len(a[1])
              /\ Len(a[2]) = Len(a[1])
              /\ \A i \in 1..Len(a[2]) : a[2][i] \in {0, 1}
              /\ a[3] \in {0, 1}
\* (a b)(x) = a(b(x))
Mul(a, b)  == <<Mat([i \in 1..Len(a[1]) |-> b[1][a[1][i]]]),
                Mat([i \in 1..Len(a[1]) |-> (a[2][i] + b[2][a[1][i]]) % 2]),
                (a[3] + b[3]) % 2>>
PermInv(p) == Mat([k \in 1..Len(p) |-> CHOOSE i \in 1..Len(p) : p[i] = k])
Inv(a)     == LET q == PermInv(a[1])
              IN <<q, Mat([k \in 1..Len(q) |-> a[2][q[k]]]), a[3]>>
Rev(a)     == <<a[1], a[2], 1 - a[3]>>
CubeOf(a)  == <<a[1], a[2], 0>>
Conj(a, g) == Mul(Mul(g, a), Inv(g))

\* actions
ActX(a, x, m)      == Mat([i \in 1..Len(x) |-> IF a[2][i] = 1 THEN m - x[a[1][i]] ELSE x[a[1][i]]])
ActT(a, t, m)      == IF a[3] = 1 THEN m - t ELSE t
ActVec(a, v)       == Mat([i \in 1..Len(v) |-> IF a[2][i] = 1 THEN 0 - v[a[1][i]] ELSE v[a[1][i]]])
ActCube(a, n, c)   == Mat([i \in 1..Len(c) |-> IF a[2][i] = 1 THEN n - 1 - c[a[1][i]] ELSE c[a[1][i]]])
ActStart(a, c, l)  == Mat([i \in 1..Len(c) |-> IF a[2][i] = 1 THEN 1 - l - c[a[1][i]] ELSE c[a[1][i]]])
ActCnum(a, G, k)   == IF a[3] = 1 THEN G - 1 - k ELSE k     \* zero-based cube numbers

\* a^k : square and multiply; a^(-k) is the inverse of a^k
RECURSIVE PowN(_, _)
PowN(a, k) == IF k = 0 THEN Id(Len(a[1]))
              ELSE LET h == PowN(a, k \div 2)
                       q == Mul(h, h)
                   IN IF k % 2 = 1 THEN Mul(q, a) ELSE q
Pow(a, k)  == IF k < 0 THEN PowN(Inv(a), 0 - k) ELSE PowN(a, k)

Perms(d)   == {p \in [1..d -> 1..d] : \A i, j \in 1..d : i # j => p[i] # p[j]}
CubeMaps(d) == {<<p, f, 0>> : p \in Perms(d), f \in [1..d -> {0, 1}]}
Maps(d)    == {<<p, f, r>> : p \in Perms(d), f \in [1..d -> {0, 1}], r \in {0, 1}}

RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE Exp(_, _)
Exp(b, k) == IF k = 0 THEN 1 ELSE b * Exp(b, k - 1)
NMaps(d) == 2 * Fact(d) * Exp(2, d)

\* specs
SMul(s, t)   == <<Mul(s[1], t[1]), s[2]>>     \* (S1 S2) f = S1 (S2 f); pattern: see semigroup law
SAct(a, s)   == <<Mul(a, s[1]), s[2]>>
SRight(s, a) == <<Mul(s[1], a), s[2]>>
SConj(s, g)  == <<Conj(s[1], g), s[2]>>
SRev(s)      == <<Rev(s[1]), s[2]>>
============================================================================
