------------------------------ MODULE MC_Arith -----------------------------
(* The definitions of module Arith against elementary ones, exhaustively on *)
(* small arguments; monotonicity and uniformity of the ratio functions.     *)
EXTENDS Arith
VARIABLES v, w, t
Vec == {f \in [1..2 -> 0..3] : TRUE}
Init == v \in Vec /\ w \in Vec /\ t \in 1..4
Next == UNCHANGED <<v, w, t>>
Spec == Init /\ [][Next]_<<v, w, t>>
B(x) == [k \in 1..2 |-> BOf(x[k])]
Kinds == {"linf", "l1", "l2", "l2s"}
R(k, x, s, D) == Ratio(k, 2, B(x), BOf(D), <<BOf(s), <<1>>>>)
RLeq(a, b) == Leq(BMul(a[1], b[2]), BMul(b[1], a[2]))
Monotone == \A k \in Kinds : (v[1] <= w[1] /\ v[2] <= w[2]) => RLeq(R(k, v, t, 1), R(k, w, t, 1))
Antitone == \A k \in Kinds : RLeq(R(k, v, t + 1, 1), R(k, v, t, 1))
\* ratio(v/2, t/4) = ratio(v, t) in dimension 2
Uniform == \A k \in Kinds : REq(Ratio(k, 2, B(v), BOf(2), <<BOf(t), BOf(4)>>), R(k, v, t, 1))
Elementary == /\ R("l1", v, t, 1)[1] = BOf((v[1] + v[2]) * (v[1] + v[2]))
              /\ R("l2", v, t, 1)[1] = BOf(v[1] * v[1] + v[2] * v[2])
              /\ R("linf", v, t, 1)[1] = BOf(IF v[1] > v[2] THEN v[1] * v[1] ELSE v[2] * v[2])
\* 0.v1 v2 v2 v2 ... in base 4 is v1/4 + v2/12
Series == IsPeriodicSum(<<v[1]>>, <<v[2]>>, 4, <<BOf(3 * v[1] + v[2]), BOf(12)>>)
          /\ IsPeriodicSum(<<>>, <<v[1], v[2]>>, 4, <<BOf(4 * v[1] + v[2]), BOf(15)>>)
          /\ (v[1] # w[1] /\ v[1] < 3 => ~IsPeriodicSum(<<v[1]>>, <<v[2]>>, 4, <<BOf(3 * v[1] + v[2] + 1), BOf(12)>>))
LcmOk == \A r \in 1..12 : IsLcm(<<v[1] + 1, v[2] + 1>>, r) <=>
            (r % (v[1] + 1) = 0 /\ r % (v[2] + 1) = 0 /\ \A z \in 1..(r - 1) : ~(z % (v[1] + 1) = 0 /\ z % (v[2] + 1) = 0))
BigLcmOk == BLcm(<<>>) = <<1>> /\ \A r \in 1..60 : IsLcm(<<v[1] + 1, v[2] + 2, w[1] + 1>>, r) <=> BEq(BOf(r), BLcm(<<v[1] + 1, v[2] + 2, w[1] + 1>>))
FaceCount == Cardinality(Faces(2, 0)) = 4 /\ Cardinality(Faces(2, 1)) = 4 /\ Cardinality(Faces(3, 1)) = 12 /\ Cardinality(Faces(3, 2)) = 6
ChoiceCount == Cardinality(Picks(<<1, 1>>, <<v[1]>>)) = (v[1] * (v[1] + 1)) \div 2
               /\ Cardinality(Picks(<<1, 2, 1>>, <<v[1], v[2]>>)) = v[2] * ((v[1] * (v[1] + 1)) \div 2)
============================================================================
