------------------------------- MODULE BigNat ------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian limbs, base  *)
(* 2^14.  Only what digit expansions of rationals need.                     *)
EXTENDS Integers, Sequences
Base == 16384
Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0

\* n*r - c*D as L limbs; the carry out of the top limb is 0 iff 0 <= n*r - c*D < Base^L
RECURSIVE Lin(_, _, _, _, _, _, _)
Lin(n, r, c, D, L, k, acc) ==
  IF k > L THEN acc
  ELSE LET v == n * Limb(r, k) - c * Limb(D, k) + acc[1]
       IN Lin(n, r, c, D, L, k + 1, <<v \div Base, Append(acc[2], v % Base)>>)
Step(n, r, c, D) == Lin(n, r, c, D, Len(D), 1, <<0, <<>>>>)

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, k) == IF k = 0 THEN TRUE
                    ELSE IF Limb(a, k) # Limb(b, k) THEN Limb(a, k) < Limb(b, k)
                    ELSE LeqFrom(a, b, k - 1)
Leq(a, b) == LeqFrom(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
Norm(a, L) == [k \in 1..L |-> Limb(a, k)]

\* remainder after removing digit c of the fraction r/D in base n: <<ok, r'>> with ok iff 0 <= r' <= D
Digit(n, r, c, D) == LET s == Step(n, r, c, D)
                     IN <<s[1] = 0 /\ Leq(s[2], D), s[2]>>
-----------------------------------------------------------------------------
\* further arithmetic: results without leading zero limbs, except <<0>>
RECURSIVE Trim(_)
Trim(a) == IF Len(a) > 1 /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, k, carry, acc) ==
  IF k > Len(a) /\ k > Len(b) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET v == Limb(a, k) + Limb(b, k) + carry IN AddFrom(a, b, k + 1, v \div Base, Append(acc, v % Base))
BAdd(a, b) == Trim(AddFrom(a, b, 1, 0, <<>>))
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, k, carry, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET v == Limb(a, k) - Limb(b, k) + carry IN SubFrom(a, b, k + 1, v \div Base, Append(acc, v % Base))
BSub(a, b) == Trim(SubFrom(a, b, 1, 0, <<>>))          \* a >= b
BDist(a, b) == IF Leq(a, b) THEN BSub(b, a) ELSE BSub(a, b)
RECURSIVE ScaleFrom(_, _, _, _, _)
ScaleFrom(a, c, k, carry, acc) ==
  IF k > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET v == a[k] * c + carry IN ScaleFrom(a, c, k + 1, v \div Base, Append(acc, v % Base))
BScale(a, c) == Trim(ScaleFrom(a, c, 1, 0, <<>>))      \* c < Base
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, k) == IF k > Len(b) THEN <<0>>
                    ELSE BAdd(BScale(a, b[k]), <<0>> \o MulFrom(a, b, k + 1))
BMul(a, b) == Trim(MulFrom(a, b, 1))
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN <<1>> ELSE BMul(a, BPow(a, k - 1))
BEq(a, b)  == Trim(a) = Trim(b)
BOf(i)     == Trim(<<i % Base, (i \div Base) % Base, i \div (Base * Base)>>)
============================================================================
