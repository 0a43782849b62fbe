----------------------------- MODULE C26_Trace -----------------------------
(* C26: pictures of curves.  ax: per pattern the axes [coarse, fine] as     *)
(* lists of lines [p |-> points, c |-> colour], labels [x, q, r] in texts.  *)
EXTENDS TraceBase, Plot

FirstAt(ls, x) == {z \in 1..Len(ls) : ls[z].p # <<>> /\ ls[z].p[1] = x}
J(mm, e) ==
  CASE e.op = "picture" ->
    LET C == e.C  G == Genus(C)  M == Exp(G, e.l - 1)
        \* lines that can be the fine line of fraction k
        Cand(q, k) == LET ls == e.ax[q].fine IN
           {z \in FirstAt(ls, FineAt(C, q, k, e.l, e.U, 1)) :
              /\ Len(ls[z].p) >= M
              /\ \A t \in 1..M : ls[z].p[t] = FineAt(C, q, k, e.l, e.U, t)}
        Cols(q, k) == {e.ax[q].fine[z].c : z \in Cand(q, k)}
        Kind(q, k) == C.pats[q].s[k][2]
        all == {<<q, k>> : q \in 1..Mult(C), k \in 1..G}
        cols == TLCEval([x \in all |-> Cols(x[1], x[2])])
        Lab(q) == {<<e.ax[q].labels[z].c, e.ax[q].labels[z].q, e.ax[q].labels[z].r>> : z \in 1..Len(e.ax[q].labels)}
    IN [m |-> mm, bad |->
         Bad("one picture per pattern", Len(e.ax) = Mult(C))
         \cup (IF Len(e.ax) # Mult(C) THEN {} ELSE
           Bad("prototype line", \A q \in 1..Mult(C) : \E z \in 1..Len(e.ax[q].coarse) : Starts(e.ax[q].coarse[z].p, Coarse(C, q, e.l, e.U)))
           \cup Bad("line of every fraction", \A x \in all : cols[x] # {})
           \cup Bad("one colour per pattern", \A x, y \in all : Kind(x[1], x[2]) = Kind(y[1], y[2]) => cols[x] = cols[y])
           \cup Bad("patterns are told apart by colour", \A x, y \in all : Kind(x[1], x[2]) # Kind(y[1], y[2]) => cols[x] \cap cols[y] = {})
           \cup (IF Mult(C) = 1 THEN {} ELSE
             Bad("labels name pattern and direction", \A q \in 1..Mult(C) :
                 /\ Lab(q) = {<<C.pats[q].c[k], C.pats[q].s[k][2], C.pats[q].s[k][1][3]>> : k \in 1..G}
                 /\ Len(e.ax[q].labels) = G)))
         \cup Bad("picture saved", e.saved = 1)]
    [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == 0
============================================================================
