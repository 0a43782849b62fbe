----------------------------- MODULE C10_Trace -----------------------------
(* C10: junction templates of a class against the junctions of its members. *)
(* The abstract state is the list of templates last recorded.               *)
EXTENDS TraceBase, Class

AllJ(C) == LET L == JLayers(C) IN UNION {L[k] : k \in 1..Len(L)}
\* template: sequence of <<pattern, number, spec>>
Agrees(C, t) == \A z \in 1..Len(t) : C.pats[t[z][1]].s[t[z][2]] = t[z][3]
J3(j) == <<j[1], j[2], j[3]>>

J(mm, e) ==
   CASE e.op = "templates" ->
          [m |-> e.js, bad |->
             Bad("junction listed twice", Cardinality({J3(e.js[z].j) : z \in 1..Len(e.js)}) = Len(e.js))
             \cup Bad("junctions of the class are the template keys",
                      {J3(x) : x \in Seq2Set(e.keys)} = {J3(e.js[z].j) : z \in 1..Len(e.js)} /\ Len(e.keys) = Len(e.js))
             \cup Bad("template keeps what is specified", \A z \in 1..Len(e.base) : \A x \in 1..Len(e.js) : \A y \in 1..Len(e.js[x].t) :
                       e.base[z] \in Seq2Set(e.js[x].t[y]))]
     [] e.op = "member" ->
          LET js == AllJ(e.C) IN
          [m |-> mm, bad |->
             Bad("junction of a member is not listed", js \subseteq {J3(mm[z].j) : z \in 1..Len(mm)})
             \cup Bad("member agrees with a template but lacks the junction",
                      \A z \in 1..Len(mm) : (\E y \in 1..Len(mm[z].t) : Agrees(e.C, mm[z].t[y])) => J3(mm[z].j) \in js)
             \cup Bad("member has the junction but agrees with no template",
                      \A z \in 1..Len(mm) : J3(mm[z].j) \in js => (\E y \in 1..Len(mm[z].t) : Agrees(e.C, mm[z].t[y])))]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
