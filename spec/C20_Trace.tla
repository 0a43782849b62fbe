----------------------------- MODULE C20_Trace -----------------------------
(* C20: the boolean encoding of a class.  Abstract state: the class and,    *)
(* for every encoding created, the set of members that avoid everything     *)
(* forbidden in it (small classes: by number) or the list of forbidden      *)
(* configurations (large classes).                                          *)
EXTENDS TraceBase, ClassMin

AllJ(C) == LET L == JLayers(C) IN UNION {L[k] : k \in 1..Len(L)}
\* auto junctions (time shift 0) belong to every member
HasJ(js, j) == j.dt = 0 \/ <<j.s1, j.s2, j.dx>> \in js
Agrees(C, t) == \A z \in 1..Len(t) : C.pats[t[z][1]].s[t[z][2]] = t[z][3]
SameSpecs(C, D) == \A q \in 1..Len(C.pats) : C.pats[q].c = D.pats[q].c /\ C.pats[q].s = D.pats[q].s

Small(e) == LET cl == TLCEval(MkClass(e))
                al == TLCEval(AllowedAll(cl))
                as == TLCEval(AlSeq(al))
                mem == TLCEval(Mat([t \in 1..NMembers(as) |-> MemberNo(cl, as, t - 1)]))
            IN [cl |-> cl, al |-> al, mem |-> mem, js |-> TLCEval(Mat([t \in 1..Len(mem) |-> AllJ(mem[t])])),
                big |-> FALSE, ad |-> <<>>]
Large(e) == LET cl == TLCEval(MkClass(e)) IN [cl |-> cl, al |-> TLCEval(AllowedAll(cl)), mem |-> <<>>, js |-> <<>>, big |-> TRUE, ad |-> <<>>]

Hit(mm, t, e) == HasJ(mm.js[t], e.j) /\ Agrees(mm.mem[t], e.t)
Forbid(mm, e) == IF mm.big THEN [mm EXCEPT !.ad[e.a] = Append(@, <<e.j, e.t>>)]
                 ELSE [mm EXCEPT !.ad[e.a] = TLCEval({t \in @ : ~Hit(mm, t, e)})]
Avoids(mm, C, f) == LET js == TLCEval(AllJ(C)) IN \A z \in 1..Len(f) : ~(HasJ(js, f[z][1]) /\ Agrees(C, f[z][2]))

Solve(mm, e) ==
  IF mm.big
  THEN IF e.sat = 0 THEN {} ELSE Bad("model is a member", IsMember(mm.cl, mm.al, e.C[1]))
                                 \cup Bad("model avoids what is forbidden", Avoids(mm, e.C[1], mm.ad[e.a]))
  ELSE Bad("satisfiable although every member is forbidden", e.sat = 1 => mm.ad[e.a] # {})
       \cup Bad("unsatisfiable although a member is left", e.sat = 0 => mm.ad[e.a] = {})
       \cup (IF e.sat = 0 THEN {} ELSE
              Bad("model is a member", IsMember(mm.cl, mm.al, e.C[1]))
              \cup Bad("model avoids what is forbidden", \E t \in mm.ad[e.a] : SameSpecs(mm.mem[t], e.C[1])))
J(mm, e) ==
   CASE e.op = "class"  -> [m |-> TLCEval(IF e.big = 1 THEN Large(e) ELSE Small(e)), bad |-> {}]
     [] e.op = "new"    -> [m |-> [mm EXCEPT !.ad = Append(@, IF mm.big THEN <<>> ELSE 1..Len(mm.mem))],
                            bad |-> Bad("malformed recording", e.a = Len(mm.ad) + 1)]
     [] e.op = "copy"   -> [m |-> [mm EXCEPT !.ad = Append(@, mm.ad[e.b])], bad |-> Bad("malformed recording", e.a = Len(mm.ad) + 1)]
     [] e.op = "forbid" -> [m |-> Forbid(mm, e), bad |-> {}]
     [] e.op = "solve"  -> [m |-> mm, bad |-> Solve(mm, e)]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
