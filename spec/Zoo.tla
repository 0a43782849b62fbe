-------------------------------- MODULE Zoo --------------------------------
(* The named curves: what their names and published descriptions say,       *)
(* stated without reference to the tables of the implementation.            *)
EXTENDS Curve, TLC, SequencesExt, FiniteSetsExt

\* cell of time t (0-based) of level l of Hilbert's curve (his own construction)
RECURSIVE HilbertAt(_, _)
HilbertAt(l, t) == IF l = 0 THEN <<0, 0>>
  ELSE LET h == Exp(2, l - 1)
           q == t \div (h * h)
           r == HilbertAt(l - 1, t % (h * h))
       IN CASE q = 0 -> <<r[2], r[1]>>
            [] q = 1 -> <<r[1], r[2] + h>>
            [] q = 2 -> <<r[1] + h, r[2] + h>>
            [] q = 3 -> <<2 * h - 1 - r[2], h - 1 - r[1]>>

\* Peano's digit formula in odd base n: time digits a1 b1 a2 b2 ... ;
\* x digit k = a_k complemented once for every odd b_1..b_(k-1), y digit k = b_k complemented for every odd a_1..a_k
RECURSIVE PeanoAt(_, _, _, _, _, _, _)
PeanoAt(n, a, k, x, y, sa, sb) ==
  IF k > Len(a) THEN <<x, y>>
  ELSE LET u == IF sb % 2 = 1 THEN n - 1 - a[k][1] ELSE a[k][1]
           s == sa + a[k][1]
           v == IF s % 2 = 1 THEN n - 1 - a[k][2] ELSE a[k][2]
       IN PeanoAt(n, a, k + 1, n * x + u, n * y + v, s, sb + a[k][2])
PeanoCell(n, l, t) ==
  PeanoAt(n, [k \in 1..l |-> LET g == (t \div Exp(n * n, l - k)) % (n * n) IN <<g \div n, g % n>>], 1, 0, 0, 0, 0)

\* cells of level l in order, of the selected pattern
Cells(C, l) == Mat([t \in 1..Exp(Genus(C), l) |-> DeepCube(C, Root(C, C.p), Addr(Genus(C), t - 1, l))])
\* two orders of the cells of the N-grid agree up to an isometry (and reversal of time when rev)
Same(d, N, A, B, rev) ==
  \E a \in {b \in Maps(d) : rev \/ b[3] = 0} :
     \A t \in 1..Len(A) : ActCube(a, N, A[IF a[3] = 1 THEN Len(A) + 1 - t ELSE t]) = B[t]

NoReversal(C) == \A q \in 1..Mult(C) : \A k \in 1..Genus(C) : C.pats[q].s[k][1][3] = 0

\* <<dimension, division, number of patterns>>
Shape == [hilbert |-> <<2, 2, 1>>, peano |-> <<2, 3, 1>>, bauman |-> <<2, 3, 1>>, scepin_bauman |-> <<2, 3, 1>>,
  peano5 |-> <<2, 5, 1>>, meurthe |-> <<2, 3, 1>>, coil |-> <<2, 3, 1>>, serpentine |-> <<2, 3, 1>>, r |-> <<2, 3, 1>>,
  ye |-> <<2, 5, 1>>, beta_omega |-> <<2, 2, 2>>, ARW |-> <<2, 2, 4>>, haverkort_a26 |-> <<3, 2, 1>>,
  haverkort_f |-> <<3, 2, 1>>, tokarev |-> <<3, 2, 1>>, neptunus |-> <<3, 2, 2>>, luna |-> <<3, 2, 2>>,
  iupiter |-> <<3, 2, 5>>, spring |-> <<3, 2, 2>>, l1_best |-> <<3, 2, 1>>, facet4 |-> <<4, 2, 1>>]

PeanoProto(n) == [t \in 1..(n * n) |-> PeanoCell(n, 1, t - 1)]

\* the order in which the cells are visited is the published one
Published(name, C) ==
  CASE name = "hilbert" -> Same(2, 16, Cells(C, 4), [t \in 1..256 |-> HilbertAt(4, t - 1)], FALSE)
    [] name = "peano"   -> Same(2, 27, Cells(C, 3), [t \in 1..729 |-> PeanoCell(3, 3, t - 1)], FALSE)
    [] name = "peano5"  -> Same(2, 25, Cells(C, 2), [t \in 1..625 |-> PeanoCell(5, 2, t - 1)], FALSE)
    [] name \in {"coil", "serpentine", "meurthe", "scepin_bauman"} -> Same(2, 3, C.pats[1].c, PeanoProto(3), TRUE) /\ NoReversal(C)
    [] name \in {"r", "tokarev", "neptunus", "luna"} -> NoReversal(C)
    [] name \in {"haverkort_f", "haverkort_a26", "bauman", "ye", "beta_omega"} -> ~NoReversal(C)
    [] OTHER -> TRUE
\* isometry invariants of the published curves: number of junctions, depth, thousandths of the dilation in each metric
Known == [
  hilbert |-> [juncs |-> 4, depth |-> 2, l1 |-> <<8996, 9002>>, linf |-> <<5998, 6003>>, l2 |-> <<5998, 6003>>],
  peano |-> [juncs |-> 2, depth |-> 1, l1 |-> <<10664, 10670>>, linf |-> <<7998, 8004>>, l2 |-> <<7998, 8004>>],
  bauman |-> [juncs |-> 5, depth |-> 2, l1 |-> <<10663, 10669>>, linf |-> <<4498, 4503>>, l2 |-> <<5664, 5669>>],
  scepin_bauman |-> [juncs |-> 2, depth |-> 1, l1 |-> <<10663, 10669>>, linf |-> <<5332, 5336>>, l2 |-> <<5664, 5669>>],
  peano5 |-> [juncs |-> 2, depth |-> 1, l1 |-> <<14396, 14428>>, linf |-> <<11995, 12021>>, l2 |-> <<11995, 12022>>],
  meurthe |-> [juncs |-> 2, depth |-> 1, l1 |-> <<10663, 10669>>, linf |-> <<5332, 5336>>, l2 |-> <<5664, 5669>>],
  coil |-> [juncs |-> 2, depth |-> 1, l1 |-> <<10663, 10669>>, linf |-> <<6665, 6670>>, l2 |-> <<6664, 6669>>],
  serpentine |-> [juncs |-> 3, depth |-> 1, l1 |-> <<9996, 10003>>, linf |-> <<5623, 5628>>, l2 |-> <<6248, 6253>>],
  r |-> [juncs |-> 4, depth |-> 1, l1 |-> <<10663, 10669>>, linf |-> <<6665, 6670>>, l2 |-> <<6665, 6670>>],
  ye |-> [juncs |-> 6, depth |-> 1, l1 |-> <<10517, 10523>>, linf |-> <<5331, 5336>>, l2 |-> <<5586, 5591>>],
  beta_omega |-> [juncs |-> 6, depth |-> 2, l1 |-> <<8996, 9002>>, linf |-> <<4998, 5003>>, l2 |-> <<4998, 5003>>],
  ARW |-> [juncs |-> 14, depth |-> 2, l1 |-> <<11997, 12004>>, linf |-> <<5397, 5402>>, l2 |-> <<6044, 6049>>],
  haverkort_a26 |-> [juncs |-> 5, depth |-> 2, l1 |-> <<99522, 99690>>, linf |-> <<12439, 12462>>, l2s |-> <<522279, 524901>>],
  haverkort_f |-> [juncs |-> 5, depth |-> 2, l1 |-> <<89690, 89842>>, linf |-> <<13990, 14016>>, l2s |-> <<344009, 345741>>],
  tokarev |-> [juncs |-> 9, depth |-> 3, l1 |-> <<98327, 98494>>, linf |-> <<24199, 24242>>, l2s |-> <<686459, 689901>>],
  neptunus |-> [juncs |-> 6, depth |-> 1, l1 |-> <<88873, 89024>>, linf |-> <<9441, 9460>>, l2s |-> <<335579, 337261>>],
  luna |-> [juncs |-> 10, depth |-> 2, l1 |-> <<75539, 75668>>, linf |-> <<13990, 14016>>, l2s |-> <<335579, 337261>>],
  iupiter |-> [juncs |-> 12, depth |-> 2, l1 |-> <<88693, 88844>>, linf |-> <<16977, 17008>>, l2s |-> <<619209, 622311>>],
  spring |-> [juncs |-> 11, depth |-> 2, l1 |-> <<82914, 83055>>, linf |-> <<10863, 10884>>, l2s |-> <<288459, 289911>>],
  l1_best |-> [juncs |-> 13, depth |-> 2, l1 |-> <<89712, 89865>>, linf |-> <<27442, 27491>>, l2s |-> <<820449, 824561>>],
  facet4 |-> [juncs |-> 11, depth |-> 2, l1 |-> <<978147, 994453>>, linf |-> <<23811, 24211>>, l2 |-> <<61539, 62157>>]]
============================================================================
