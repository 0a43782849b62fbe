------------------------------ MODULE MC_Bisect ----------------------------
(* Design model of the threshold test on a class.  An item stands for a     *)
(* pair of fractions of the partially specified curve: val gives, for every *)
(* member consistent with it, the dilation of the pair in that member, and  *)
(* lo, up bound it for all of them.  Dividing an item specifies the curve   *)
(* further: the parts cover its members and keep their values, bounds may   *)
(* only tighten.  Good items (up <= good) are dropped, bad ones (lo >= bad) *)
(* forbid their members, the others stay active.  Whatever the order of     *)
(* divisions and of the calls to the solver, the answer is right.           *)
EXTENDS Integers, FiniteSets
CONSTANTS Mem, V
VARIABLES truth, active, forbidden, good, bad, answer
vars == <<truth, active, forbidden, good, bad, answer>>

Subs == SUBSET Mem \ {{}}
MinV(f) == CHOOSE x \in 0..V : (\E m \in DOMAIN f : f[m] = x) /\ \A m \in DOMAIN f : f[m] >= x
MaxV(f) == CHOOSE x \in 0..V : (\E m \in DOMAIN f : f[m] = x) /\ \A m \in DOMAIN f : f[m] <= x
Vals == UNION {[S -> 0..V] : S \in Subs}
Items == UNION {{[val |-> f, lo |-> l, up |-> u] : l \in 0..MinV(f), u \in MaxV(f)..V} : f \in Vals}
Value(its, m) == LET X == {it \in its : m \in DOMAIN it.val} IN CHOOSE x \in 0..V : (\E it \in X : it.val[m] = x) /\ \A it \in X : it.val[m] <= x
Covers(its) == \A m \in Mem : \E it \in its : m \in DOMAIN it.val

IsGood(it) == it.up <= good
IsBad(it)  == ~IsGood(it) /\ it.lo >= bad
Push(its, new) == its \cup {it \in new : ~IsGood(it) /\ ~IsBad(it)}
Forb(new) == UNION {DOMAIN it.val : it \in {x \in new : IsBad(x)}}
SatMembers == Mem \ forbidden

Init == \E r1 \in Items, r2 \in Items : \E g \in 1..V, b \in 0..V :
          /\ b < g /\ Covers({r1, r2})
          /\ good = g /\ bad = b
          /\ truth = [m \in Mem |-> Value({r1, r2}, m)]
          /\ active = {it \in {r1, r2} : it.up > g /\ it.lo < b}
          /\ forbidden = UNION {DOMAIN it.val : it \in {x \in {r1, r2} : x.up > g /\ x.lo >= b}}
          /\ answer = "run"
Restrict(it, S) == [m \in S |-> it.val[m]]
\* the parts of an item: any cover of its members; bounds tight or only as good as before
Tight(f) == [val |-> f, lo |-> MinV(f), up |-> MaxV(f)]
Loose(it, f) == [val |-> f, lo |-> it.lo, up |-> it.up]
Divide == /\ answer = "run" /\ active # {}
          /\ \E it \in active :
               /\ \A o \in active : o.up <= it.up
               /\ \E P \in SUBSET Subs : /\ UNION P = DOMAIN it.val /\ Cardinality(P) <= 2
                    /\ \E mode \in {"tight", "mixed"} :
                       LET parts == IF mode = "tight" THEN {Tight(Restrict(it, S)) : S \in P}
                                    ELSE {IF Cardinality(S) = 1 THEN Tight(Restrict(it, S)) ELSE Loose(it, Restrict(it, S)) : S \in P}
                       IN /\ active' = Push(active \ {it}, parts)
                          /\ forbidden' = forbidden \cup Forb(parts)
          /\ UNCHANGED <<truth, good, bad, answer>>
\* the solver may be asked at any moment; without a model the class is bad
AskUnsat == answer = "run" /\ SatMembers = {} /\ answer' = "none" /\ UNCHANGED <<truth, active, forbidden, good, bad>>
Finish == /\ answer = "run" /\ active = {} /\ SatMembers # {}
          /\ answer' \in SatMembers
          /\ UNCHANGED <<truth, active, forbidden, good, bad>>
Next == Divide \/ AskUnsat \/ Finish
Spec == Init /\ [][Next]_vars
FoundIsGood == answer \in Mem => truth[answer] <= good
NoneIsBad   == answer = "none" => \A m \in Mem : truth[m] >= bad
ForbiddenIsBad == \A m \in forbidden : truth[m] >= bad
============================================================================
