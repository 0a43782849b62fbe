------------------------------- MODULE MC_Sat ------------------------------
(* Design model of the boolean encoding.  A member assigns a spec to every  *)
(* position.  A junction belongs to the members that agree with one of its  *)
(* templates (partial assignments).  Variables: sp(p,s), one per template   *)
(* and one per junction.  Clauses: exactly one spec per position, template  *)
(* variable <=> its specs, junction variable <=> one of its templates,      *)
(* not(junction and partial assignment) for everything forbidden.  Claim:   *)
(* after any history the valuations that satisfy the clauses project onto   *)
(* exactly the members that avoid what was forbidden.                       *)
EXTENDS Integers, FiniteSets
CONSTANTS Pos, Specs, MaxForb
VARIABLES tmpl, forb
vars == <<tmpl, forb>>
Juncs == {"a", "b"}                       \* "a": in every member
Members == [Pos -> Specs]
Partial == UNION {[D -> Specs] : D \in SUBSET Pos}
Agree(m, t) == \A p \in DOMAIN t : m[p] = t[p]
Has(m, j) == j = "a" \/ \E t \in tmpl : Agree(m, t)
Survivors == {m \in Members : \A f \in forb : ~(Has(m, f[1]) /\ Agree(m, f[2]))}
\* valuations of the variables
Vals == [sp : SUBSET (Pos \X Specs), cv : SUBSET tmpl, jv : SUBSET Juncs]
Sp(v, p, s) == <<p, s>> \in v.sp
Sat(v) ==
  /\ \A p \in Pos : (\E s \in Specs : Sp(v, p, s)) /\ \A s, z \in Specs : s # z => ~(Sp(v, p, s) /\ Sp(v, p, z))
  /\ "a" \in v.jv
  /\ \A t \in tmpl : /\ \A p \in DOMAIN t : (t \in v.cv) => Sp(v, p, t[p])
                     /\ (\A p \in DOMAIN t : Sp(v, p, t[p])) => t \in v.cv
  /\ ("b" \in v.jv) => \E t \in tmpl : t \in v.cv
  /\ \A t \in tmpl : t \in v.cv => "b" \in v.jv
  /\ \A f \in forb : ~(f[1] \in v.jv /\ \A p \in DOMAIN f[2] : Sp(v, p, f[2][p]))
Proj(v) == [p \in Pos |-> CHOOSE s \in Specs : Sp(v, p, s)]
Init == tmpl \in {T \in SUBSET Partial : Cardinality(T) <= 2} /\ forb = {}
Forbid == Cardinality(forb) < MaxForb /\ \E j \in Juncs, t \in Partial : forb' = forb \cup {<<j, t>>} /\ UNCHANGED tmpl
Next == Forbid
Spec == Init /\ [][Next]_vars
Exact == {Proj(v) : v \in {x \in Vals : Sat(x)}} = Survivors
============================================================================
