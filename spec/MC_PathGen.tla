----------------------------- MODULE MC_PathGen ----------------------------
(* Design model of path growth with links on the 2x2 grid: for every pair   *)
(* of gate points on the half-integer lattice, grow node by node.           *)
EXTENDS PathGen
VARIABLES sys, link, path
Pts == {<<x, y>> : x \in {0, 1, 2}, y \in {0, 1, 2}} \ {<<1, 1>>}
Bx(p) == <<<<p[1], p[1]>>, <<p[2], p[2]>>>>
Init == /\ \E a \in Pts, b \in Pts : a # b /\ a[1] <= 1 /\ a[2] <= 1 /\ link = <<Bx(a), Bx(b)>>
        /\ sys = TLCEval(System(2, 2, 2, <<link>>, -1))
        /\ path \in {<<z>> : z \in StartOf(sys, link[1])}
Cells(p) == {p[k] \div sys.NI : k \in 1..Len(p)}
Next == /\ Len(path) < 4
        /\ \E z \in sys.succ[path[Len(path)] + 1] : (z \div sys.NI) \notin Cells(path) /\ path' = Append(path, z)
        /\ UNCHANGED <<sys, link>>
Spec == Init /\ [][Next]_<<sys, link, path>>
Full == Len(path) = 4 /\ path[4] \in FinishOf(sys, link[2])
All == PathsOfLink(sys, link)
\* what is grown step by step is what the definition lists
Listed == Full => path \in All
\* consecutive fractions share the gate point
Continuous == \A k \in 1..(Len(path) - 1) :
   LET a == path[k]  b == path[k + 1] IN
   Moved(sys.im[1 + (a % sys.NI)][2], CubeAt(2, 2, a \div sys.NI), 2) = Moved(sys.im[1 + (b % sys.NI)][1], CubeAt(2, 2, b \div sys.NI), 2)
\* the set of paths is closed under the symmetries of the link
Symmetric == Full => \A a \in LinkStab(sys, link) : PathAct(sys, NodeAct(sys, a), path) \in All
\* a path is consistent with itself and with nothing else among pointed paths
SelfParent == Full => PathsOfParent(sys, Mat([k \in 1..4 |-> CubeAt(2, 2, path[k] \div sys.NI)]), Mat([k \in 1..4 |-> sys.im[1 + (path[k] % sys.NI)]])) = {path}
============================================================================
