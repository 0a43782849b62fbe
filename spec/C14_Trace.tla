----------------------------- MODULE C14_Trace -----------------------------
(* C14: listed gate tuples <<D, links>> of a configuration.                 *)
(*  sound: every listed tuple is standard, realisable, of the asked kind    *)
(*  part:  systems with the given pairs of cubes (pr) and share sh of the   *)
(*         labels/choices: every realisable tuple among them is listed      *)
EXTENDS TraceBase, Gates

Pts(t) == Mat([i \in 1..(2 * Len(t[2])) |-> Reduced(t[1], t[2][(i + 1) \div 2][2 - (i % 2)])])
Kind(e, T) == IF e.facet = 1 THEN AllFacet(T) ELSE AllBoundary(T)
Sound(e) ==
  Bad("listed twice", Cardinality(Seq2Set(e.out)) = Len(e.out))
  \cup Bad("the same set on every generation", \A k \in 1..Len(e.again) : Seq2Set(e.again[k]) = Seq2Set(e.out) /\ Len(e.again[k]) = Len(e.out))
  \cup UNION {LET t == e.out[z]  T == Pts(t) IN
        Bad("number of gates", Len(t[2]) = e.m)
        \cup Bad("gates on the boundary (strictly inside facets)", Kind(e, T))
        \cup Bad("standard form", StdTuple(e.d, T) = t)
        \cup Bad("admits a path for every component", Realisable(e.d, e.n, t[1], t[2])) : z \in 1..Len(e.out)}
Part(e) ==
  LET cb == Mat([i \in 1..(2 * e.m) |-> e.pr[(i + 1) \div 2][2 - (i % 2)]])
      labs == {l \in LabelsOf(e.n, cb) : TRUE}
      tb == TLCEval(Tables(e.d, e.n, cb))
      raw == UNION {LET ch == ChoicesOf(e.d, Mat(l), 1)
                        mine == {o \in ch : (o[1] + 3 * l[1][1] + 5 * o[2][2][1] + 7 * o[2][2][Len(o[2][2])] + l[2][1]) % e.sh[2] = e.sh[1]}
                    IN RawTuples(e.d, e.n, cb, Mat(l), mine, tb) : l \in labs}
      Missing(k) == LET o == e.outs[k]
                        std == {StdTuple(e.d, T) : T \in {x \in raw : IF o.facet = 1 THEN AllFacet(x) ELSE AllBoundary(x)}}
                    IN {t \in std \ Seq2Set(o.out) : Realisable(e.d, e.n, t[1], t[2])}
  IN Bad("standard pairs of boundary cubes", \A p \in Seq2Set(e.pr) : p \in StdPairs(e.d, e.n))
     \cup Bad("realisable gates missing", \A k \in 1..Len(e.outs) : Missing(k) = {})
\* the pairs handed to the parts are all of them
Pairs(e) == Bad("all pairs of cubes are explored", Seq2Set(e.prs) = StdPairs(e.d, e.n))
\* patterns of two multifractals together form one
Union(e) ==
            Bad("gates of two multifractals together", \A a \in Seq2Set(e.a) : \A b \in Seq2Set(e.b) :
                 LET t == StdTuple(e.d, Pts(a) \o Pts(b)) IN t \in Seq2Set(e.out))
J(mm, e) == [m |-> mm, bad |-> CASE e.op = "sound" -> Sound(e) [] e.op = "part" -> Part(e) [] e.op = "pairs" -> Pairs(e)
                                 [] e.op = "table" -> Bad("the gates found by exhaustive exploration", Seq2Set(e.out) = Seq2Set(e.want))
                                 [] e.op = "union" -> Union(e) [] OTHER -> {"unknown event"}]
MInit == <<>>
============================================================================
