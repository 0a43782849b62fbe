----------------------------- MODULE C13_Trace -----------------------------
(* C13: for one system of rules, the paths returned for several budgets.    *)
EXTENDS TraceBase, PathSystem

J(mm, e) ==
  CASE e.op = "grow" ->
     LET succ == Mat([x \in 1..Len(e.succ) |-> Seq2Set(e.succ[x])])
         want == AllPaths(e.S, e.N, succ, Seq2Set(e.start), Seq2Set(e.fin))
         Judge1(r) == LET got == Seq2Set(r.p) IN
                       Bad("path that breaks the rules", got \subseteq want)
                       \cup Bad("path lost", want \subseteq got)
                       \cup Bad("path repeated", Cardinality(got) = Len(r.p))
     IN [m |-> mm, bad |-> UNION {Judge1(e.runs[k]) : k \in 1..Len(e.runs)}]
  [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
