------------------------------- MODULE Orbit -------------------------------
(* Orbits and standard forms of points and links (pairs of points) under    *)
(* cube isometries / base maps.  A point is a sequence of numerators over a *)
(* common denominator m; a link is <<entrance, exit>>.                      *)
EXTENDS Iso

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> \/ b = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))
LexLe(a, b) == a = b \/ LexLess(a, b)
LinkLess(k, l) == IF k[1] # l[1] THEN LexLess(k[1], l[1]) ELSE LexLess(k[2], l[2])
LinkLe(k, l) == k = l \/ LinkLess(k, l)

ActLink(a, k, m) == IF a[3] = 1 THEN <<ActX(a, k[2], m), ActX(a, k[1], m)>>
                    ELSE <<ActX(a, k[1], m), ActX(a, k[2], m)>>
\* maps sending x to y
Carriers(x, y, m, CM) == {a \in CM : ActX(a, x, m) = y}
LCarriers(k, l, m, AM) == {a \in AM : ActLink(a, k, m) = l}
\* least element by definition
IsPStd(s, x, m, CM) == /\ \E a \in CM : ActX(a, x, m) = s
                       /\ \A a \in CM : LexLe(s, ActX(a, x, m))
IsLStd(s, k, m, AM) == /\ \E a \in AM : ActLink(a, k, m) = s
                       /\ \A a \in AM : LinkLe(s, ActLink(a, k, m))
\* closed form for points: fold every coordinate at one half and sort
Fold(x, m) == [k \in 1..Len(x) |-> IF 2 * x[k] <= m THEN x[k] ELSE m - x[k]]
Sorted(x) == CHOOSE y \in {[k \in 1..Len(x) |-> x[p[k]]] : p \in Perms(Len(x))} :
                 \A k \in 1..(Len(x) - 1) : y[k] <= y[k + 1]
PStd(x, m) == Sorted(Fold(x, m))
\* the fast standard form of a link: only maps that bring one end to its standard form
MinSeq(S) == CHOOSE y \in S : \A z \in S : LexLe(y, z)
LStd(k, m, CM) ==
  LET s1 == PStd(k[1], m)  s2 == PStd(k[2], m)
      o1 == MinSeq({ActX(a, k[2], m) : a \in Carriers(k[1], s1, m, CM)})
      o2 == MinSeq({ActX(a, k[1], m) : a \in Carriers(k[2], s2, m, CM)})
  IN IF LexLess(s1, s2) THEN <<s1, o1>>
     ELSE IF LexLess(s2, s1) THEN <<s2, o2>>
     ELSE <<s1, MinSeq({o1, o2})>>
============================================================================
