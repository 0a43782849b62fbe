----------------------------- MODULE Notation ------------------------------
(* The text notation: a text is a sequence of character codes.              *)
(*   map     images of the basis vectors i,j,k,..; capitals negate; '~'     *)
(*   spec    pattern number (zero may be left out) followed by a map        *)
(*   chain   steps between consecutive cubes: a letter, or several in ( )   *)
(*   pattern chain '|' specs separated by commas                            *)
(*   point   rationals separated by commas in ( )                           *)
EXTENDS Iso

Blank(c)  == c \in {32, 9}
IsLow(c)  == c \in 105..110
IsCap(c)  == c \in 73..78
IsLet(c)  == IsLow(c) \/ IsCap(c)
Axis(c)   == IF IsLow(c) THEN c - 104 ELSE c - 72
IsDig(c)  == c \in 48..57
Letter(i, neg) == IF neg = 1 THEN 72 + i ELSE 104 + i

NoBlanks(t) == SelectSeq(t, LAMBDA c : ~Blank(c))
Sub(t, a, b) == SubSeq(t, a, b)
\* positions of character c, then the pieces between them
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(t, c, a, k) == IF k > Len(t) THEN <<Sub(t, a, Len(t))>>
                         ELSE IF t[k] = c THEN <<Sub(t, a, k - 1)>> \o SplitFrom(t, c, k + 1, k + 1)
                         ELSE SplitFrom(t, c, a, k + 1)
Split(t, c) == SplitFrom(t, c, 1, 1)

\* ---- maps and specs (texts without blanks)
MapText(t) == /\ t # <<>>
              /\ LET b == IF t[Len(t)] = 126 THEN Sub(t, 1, Len(t) - 1) ELSE t
                 IN /\ b # <<>> /\ \A k \in 1..Len(b) : IsLet(b[k])
                    /\ {Axis(b[k]) : k \in 1..Len(b)} = 1..Len(b)
ParseMap(t) == LET rv == t[Len(t)] = 126
                   b  == IF rv THEN Sub(t, 1, Len(t) - 1) ELSE t
                   at(a) == CHOOSE k \in 1..Len(b) : Axis(b[k]) = a   \* e_at(a) goes to +-e_a: y_a = x_at(a)
               IN <<[a \in 1..Len(b) |-> at(a)], [a \in 1..Len(b) |-> IF IsCap(b[at(a)]) THEN 1 ELSE 0], IF rv THEN 1 ELSE 0>>
PrintMap(a) == LET q == PermInv(a[1])
               IN [k \in 1..Len(q) |-> Letter(q[k], a[2][q[k]])] \o (IF a[3] = 1 THEN <<126>> ELSE <<>>)
RECURSIVE Num(_, _)
Num(t, acc) == IF t = <<>> THEN acc ELSE Num(Tail(t), acc * 10 + Head(t) - 48)
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))
NDig(t) == CHOOSE k \in 0..Len(t) : (\A q \in 1..k : IsDig(t[q])) /\ (k = Len(t) \/ ~IsDig(t[k + 1]))
SpecText(t) == MapText(Sub(t, NDig(t) + 1, Len(t)))
ParseSpec(t) == LET k == NDig(t) IN <<ParseMap(Sub(t, k + 1, Len(t))), Num(Sub(t, 1, k), 0) + 1>>
PrintSpec(s) == Digits(s[2] - 1) \o PrintMap(s[1])

\* ---- chains: sequence of steps, a step is a sequence of letters
RECURSIVE Steps(_, _)
Steps(t, k) == IF k > Len(t) THEN <<>>
               ELSE IF t[k] = 40
                    THEN LET e == CHOOSE q \in k..Len(t) : t[q] = 41 /\ \A z \in k..(q - 1) : t[z] # 41
                         IN <<Sub(t, k + 1, e - 1)>> \o Steps(t, e + 1)
                    ELSE <<<<t[k]>>>> \o Steps(t, k + 1)
ChainText(t) == \A k \in 1..Len(t) : IsLet(t[k]) \/ t[k] \in {40, 41}
\* a step along one axis is written as a letter without parentheses
PlainSteps(t) == \A k \in 1..Len(t) : t[k] = 40 => k + 2 <= Len(t) /\ t[k + 2] # 41
ChainDim(t) == Cardinality({Axis(t[k]) : k \in {q \in 1..Len(t) : IsLet(t[q])}})
Delta(d, st) == [a \in 1..d |-> IF \E k \in 1..Len(st) : st[k] = Letter(a, 0) THEN 1
                                ELSE IF \E k \in 1..Len(st) : st[k] = Letter(a, 1) THEN 0 - 1 ELSE 0]
RECURSIVE Walk(_, _, _, _)
Walk(d, sts, k, acc) == IF k > Len(sts) THEN acc
                        ELSE LET x == acc[Len(acc)]
                                 y == Mat(Delta(d, sts[k]))
                             IN Walk(d, sts, k + 1, Append(acc, Mat([a \in 1..d |-> x[a] + y[a]])))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
ParseChain(t) ==
  LET d == ChainDim(t)
      w == Walk(d, Steps(t, 1), 1, <<[a \in 1..d |-> 0]>>)
      lo == Mat([a \in 1..d |-> MinOf({w[k][a] : k \in 1..Len(w)})])
      c == Mat([k \in 1..Len(w) |-> Mat([a \in 1..d |-> w[k][a] - lo[a]])])
  IN [d |-> d, n |-> 1 + MaxOf({c[k][a] : k \in 1..Len(c), a \in 1..d}), c |-> c]
StepText(dx) == LET nz == SelectSeq([a \in 1..Len(dx) |-> a], LAMBDA a : dx[a] # 0)
                    ls == [k \in 1..Len(nz) |-> Letter(nz[k], IF dx[nz[k]] < 0 THEN 1 ELSE 0)]
                IN IF Len(ls) = 1 THEN ls ELSE <<40>> \o ls \o <<41>>

\* ---- patterns and curves
PatternText(t) == \E k \in 1..Len(t) : t[k] = 124
ParsePattern(t) == LET h == Split(t, 124)
                       sp == Split(h[2], 44)
                       p == ParseChain(h[1])
                   IN [c |-> p.c, s |-> [k \in 1..Len(sp) |-> ParseSpec(sp[k])]]
\* "@k: pattern"
ParseCurveLine(t) == LET h == Split(t, 58) IN <<Num(Tail(h[1]), 0), ParsePattern(h[2])>>

\* ---- points: numerators over D
ParseRat(t) == LET neg == t[1] = 45
                   u == IF neg THEN Tail(t) ELSE t
                   f == Split(u, 47)
                   n == Num(f[1], 0)
               IN <<IF neg THEN 0 - n ELSE n, IF Len(f) = 2 THEN Num(f[2], 0) ELSE 1>>
PointText(t) == Len(t) >= 3 /\ t[1] = 40 /\ t[Len(t)] = 41
PointIs(t, D, x) == LET f == Split(Sub(t, 2, Len(t) - 1), 44)
                    IN /\ Len(f) = Len(x)
                       /\ \A k \in 1..Len(f) : LET r == ParseRat(f[k]) IN r[1] * D = x[k] * r[2]
\* "(..)->(..)"
ArrowAt(t) == CHOOSE k \in 1..(Len(t) - 1) : t[k] = 45 /\ t[k + 1] = 62
GateIs(t, D, x, y) == LET k == ArrowAt(t) IN PointIs(Sub(t, 1, k - 1), D, x) /\ PointIs(Sub(t, k + 2, Len(t)), D, y)
============================================================================
