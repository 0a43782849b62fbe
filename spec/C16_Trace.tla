----------------------------- MODULE C16_Trace -----------------------------
(* C16: estimates of one curve.  "curve" makes the specification compute    *)
(* its own bracket of the dilation; every later estimate must contain /     *)
(* respect it.  Rationals: <<num, den>> of limb sequences; lof, upc are the *)
(* reported bounds at the scale of the bracket, rounded outwards.           *)
EXTENDS TraceBase, Dilation, Limit

\* exact value of the ratio for a difference vector v/D (limbs), time t/T: <<numerator, denominator>>
RECURSIVE BSum(_, _)
BSum(v, k) == IF k = 0 THEN <<0>> ELSE BAdd(v[k], BSum(v, k - 1))
BMax(v) == v[CHOOSE k \in 1..Len(v) : \A l \in 1..Len(v) : Leq(v[l], v[k])]
Sq(v)   == Mat([k \in 1..Len(v) |-> BMul(v[k], v[k])])
Ratio(kind, d, v, D, t, T) ==
  CASE kind = "linf" -> <<BMul(BPow(BMax(v), d), T), BMul(BPow(D, d), t)>>
    [] kind = "l1"   -> <<BMul(BPow(BSum(v, d), d), T), BMul(BPow(D, d), t)>>
    [] kind = "l2"   -> <<BMul(BPow(BSum(Sq(v), d), d \div 2), T), BMul(BPow(D, d), t)>>
    [] kind = "l2s"  -> <<BMul(BPow(BSum(Sq(v), d), d), BMul(T, T)), BMul(BPow(D, 2 * d), BMul(t, t))>>
REq(a, b) == BEq(BMul(a[1], b[2]), BMul(b[1], a[2]))
RLeq(a, b) == Leq(BMul(a[1], b[2]), BMul(b[1], a[2]))

\* reachable pairs of adjacent fractions, up to isometry and reversal
RECURSIVE Close(_, _, _)
Close(C, cur, seen) == IF cur = {} THEN seen
   ELSE LET nxt == TLCEval({NormJ(Derive(C, J)) : J \in cur} \ (seen \cup cur)) IN Close(C, nxt, TLCEval(seen \cup cur))
Adj(C) == Close(C, {NormJ(BaseJ(C, q, k)) : q \in 1..Mult(C), k \in 1..(Genus(C) - 1)}, {})
JuncOk(C, j) == \/ j[4] = 0 /\ j[1][2] = j[2][2] /\ CubeOf(j[1][1]) = CubeOf(j[2][1]) /\ j[1][1][3] = j[2][1][3]
                   /\ \A k \in 1..C.d : j[3][k] = 0
                \/ j[4] = 1 /\ \E P \in Adj(C) : P \in ClassJ(<<j[1], j[2], j[3]>>)

\* shift by an integer vector / integer of numerators over D
Plus(x, D, s) == Mat([j \in 1..Len(x) |-> BAdd(x[j], BScale(D, s[j]))])
Witness(C, kind, e) ==
  LET j == e.j
      y == e.y2
  IN /\ JuncOk(C, j)
     /\ IsValue(C, j[1], e.x1, e.D, e.t1, e.T)
     /\ IsValue(C, j[2], y, e.D, e.u2, e.T)
     /\ REq(Ratio(kind, C.d, e.v, e.D, e.dt, e.T), e.lo)
     \* v = |x1 - (y2 + delta)|, dt = (u2 + delta_t) - t1
     /\ \A k \in 1..C.d : e.v[k] = (IF j[3][k] >= 0 THEN BDist(BAdd(y[k], BScale(e.D, j[3][k])), e.x1[k])
                                    ELSE BDist(BAdd(e.x1[k], BScale(e.D, 0 - j[3][k])), y[k]))
     /\ BEq(BAdd(e.u2, BScale(e.T, j[4])), BAdd(e.t1, e.dt))

J(mm, e) ==
  CASE e.op = "curve" -> [m |-> [C |-> e.C, k |-> e.k, r |-> TLCEval(Dil(e.C, e.k, e.S, e.K, e.lev))], bad |-> {}]
    [] e.op = "est" -> [m |-> mm, bad |->
          Bad("lo <= dilation", mm.r[2] < 0 \/ e.lof <= mm.r[2])
          \cup Bad("dilation <= up", mm.r[1] <= e.upc)
          \cup Bad("lo <= up", RLeq(e.lo, e.up))
          \cup (IF e.tol = 0 THEN {} ELSE Bad("tolerance met", Leq(BScale(BMul(e.up[1], e.lo[2]), e.tol), BScale(BMul(e.lo[1], e.up[2]), e.tol + 1))))]
    [] e.op = "argmax" -> [m |-> mm, bad |-> Bad("witness attains lo on the curve", Witness(mm.C, mm.k, e))]
    [] e.op = "noarg" -> [m |-> mm, bad |-> {"no witness returned with face moments"}]
    [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == [r |-> <<0, 0>>]
============================================================================
