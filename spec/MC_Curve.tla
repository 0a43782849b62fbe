------------------------------ MODULE MC_Curve -----------------------------
(* Design model of curves: the orientation graph of a few small curves.     *)
(* State: curve, orientation of a fraction, its address.  Every map of the  *)
(* group is applied; invariants say that ActCurve is the image of the map   *)
(* t -> x(t) at the next depths, that reversal is an involution, that       *)
(* cubes of each depth partition the cube and that continuity is invariant. *)
EXTENDS Curve, TLC
VARIABLES w, sp, ks

M(p, f, r) == <<p, f, r>>
Sq == <<<<0,0>>,<<0,1>>,<<1,1>>,<<1,0>>>>
\* Hilbert's curve
Hil == [d |-> 2, n |-> 2, p |-> 1, pats |-> <<[c |-> Sq,
   s |-> <<<<M(<<2,1>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<2,1>>,<<1,1>>,0),1>>>>]>>]
\* the same with time reversals
HilR == [Hil EXCEPT !.pats[1].s[1] = <<M(<<2,1>>,<<0,1>>,1),1>>, !.pats[1].s[3] = <<M(<<1,2>>,<<1,0>>,1),1>>]
\* a discontinuous two-pattern curve
Mix == [d |-> 2, n |-> 2, p |-> 2, pats |-> <<[c |-> Sq, s |-> Hil.pats[1].s],
   [c |-> <<<<1,0>>,<<0,0>>,<<0,1>>,<<1,1>>>>,
    s |-> <<<<M(<<2,1>>,<<1,0>>,1),1>>, <<M(<<1,2>>,<<0,1>>,0),2>>, <<M(<<2,1>>,<<0,0>>,1),2>>, <<M(<<1,2>>,<<1,1>>,0),1>>>>]>>]
Curves == <<Hil, HilR, Mix>>
Depth == 2
Init == w \in 1..3 /\ \E q \in 1..Mult(Curves[w]) : sp = Root(Curves[w], q) /\ ks = <<>>
Next == /\ Len(ks) < Depth
        /\ \E k \in 1..4 : ks' = Append(ks, k) /\ sp' = OSpec(Curves[w], sp, k)
        /\ w' = w
Spec == Init /\ [][Next]_<<w, sp, ks>>

C == Curves[w]
Well == IsCurve(C) /\ IsMap(sp[1]) /\ sp[2] \in 1..Mult(C)
\* cube number t of depth l of the image is the image of cube number (reversed) t
ImageLaw == ks = <<>> => \A a \in Maps(2) :
   LET R == ActCurve(a, C)
   IN \A t \in 0..15 :
        /\ DeepCube(R, Root(R, sp[2]), Addr(4, t, 2)) = ActCube(a, 4, DeepCube(C, sp, Addr(4, ActCnum(a, 16, t), 2)))
        /\ SMul(Deep(R, Root(R, sp[2]), Addr(4, t, 2)), <<a, 1>>)[1] = Mul(a, Deep(C, sp, Addr(4, ActCnum(a, 16, t), 2))[1])
Compose == ks = <<>> => \A a, b \in {M(<<2,1>>,<<0,1>>,1), M(<<1,2>>,<<1,0>>,0), M(<<2,1>>,<<0,0>>,0)} :
   ActCurve(Mul(a, b), C) = ActCurve(a, ActCurve(b, C))
Partition == Cardinality({DeepCube(C, sp, Addr(4, t, 2)) : t \in 0..15}) = 16
ContinuityInvariant == ks = <<>> => /\ Continuous(C) = (w \in {1, 2})
                                    /\ \A a \in Maps(2) : Continuous(ActCurve(a, C)) = Continuous(C)
\* junction layers: closed under derivation, in standard form, disjoint
Junctions == (ks = <<>> /\ w # 3) =>
   LET L == JLayers(C)
       All == UNION {L[k] : k \in 1..Len(L)}
   IN /\ \A j \in All : StdJ(j) = j /\ j[1][1][1] = <<1, 2>> /\ j[1][1][2] = <<0, 0>> /\ j[1][2] <= j[2][2]
      /\ \A j \in All : StdJ(Derive(C, j)) \in All /\ Touch(j)
      /\ \A k, l \in 1..Len(L) : k # l => L[k] \cap L[l] = {}
      \* junctions do not depend on the orientation of the curve
      /\ \A a \in CubeMaps(2) : [k \in 1..Len(L) |-> Cardinality(L[k])] = [k \in 1..Len(L) |-> Cardinality(JLayers(ActCurve(a, C))[k])]
============================================================================
