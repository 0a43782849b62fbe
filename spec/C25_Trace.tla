----------------------------- MODULE C25_Trace -----------------------------
(* C25: the catalogue of named curves and the facts recorded there.         *)
EXTENDS TraceBase, Dilation, Limit, Zoo

InteriorOfFacet(x, D) == LET Z == {j \in 1..Len(x) : Leq(x[j], <<0>>) \/ Leq(D, x[j])} IN Cardinality(Z) = 1
Vertex(x, D) == \A j \in 1..Len(x) : Leq(x[j], <<0>>) \/ Leq(D, x[j])
\* number of coordinates in which two vertices differ
Apart(x, y, D) == Cardinality({j \in 1..Len(x) : Leq(x[j], <<0>>) # Leq(y[j], <<0>>)})

CountIn(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
Bag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : CountIn(s, s[k]) = CountIn(t, s[k])

GateKind(name, g, D) ==
  CASE name \in {"spring", "facet4"} -> \A q \in 1..Len(g) : InteriorOfFacet(g[q][1], D) /\ InteriorOfFacet(g[q][2], D)
    [] name \in {"hilbert", "ye", "r", "haverkort_a26", "tokarev", "l1_best"} ->
         \A q \in 1..Len(g) : Vertex(g[q][1], D) /\ Vertex(g[q][2], D) /\ Apart(g[q][1], g[q][2], D) = 1
    [] name \in {"peano", "peano5", "coil", "serpentine", "meurthe", "scepin_bauman"} ->
         \A q \in 1..Len(g) : Vertex(g[q][1], D) /\ Vertex(g[q][2], D) /\ Apart(g[q][1], g[q][2], D) = 2
    [] OTHER -> TRUE

\* thousandths w against the bracket r at scale S
Near(w, r, S) == w[1] <= MulDiv(r[2], 1000, S, 1) /\ MulDiv(r[1], 1000, S, 0) <= w[2]

J(mm, e) ==
  CASE e.op = "curve" -> [m |-> [C |-> e.C, name |-> e.name], bad |->
          Bad("shape", e.name \in DOMAIN Shape /\ Shape[e.name] = <<e.C.d, e.C.n, Mult(e.C)>>)
          \cup Bad("not a curve", IsCurve(e.C))
          \cup Bad("continuous", Continuous(e.C))
          \cup Bad("not the published curve (junctions)", LET L == JLayers(e.C) IN Len(L) = Known[e.name].depth /\ Cardinality(UNION Seq2Set(L)) = Known[e.name].juncs)
          \cup Bad("not the published curve", Published(e.name, e.C))
          \cup Bad("a second call gives another curve", e.again = e.C)
          \cup Bad("missing in the list of all curves", e.listed = 1)]
    [] e.op = "gates" -> [m |-> mm, bad |->   \* computed and recorded gates
          Bad("gates of the curve", \A q \in 1..Mult(mm.C) : IsEnd(mm.C, q, 0, e.g[q][1], e.D) /\ IsEnd(mm.C, q, 1, e.g[q][2], e.D))
          \cup Bad("kind of gates", GateKind(mm.name, e.g, e.D))]
    [] e.op = "fgates" -> [m |-> mm, bad |->
          Bad("recorded gates", Len(e.g) = Mult(mm.C) /\ \A q \in 1..Mult(mm.C) : IsEnd(mm.C, q, 0, e.g[q][1], e.D) /\ IsEnd(mm.C, q, 1, e.g[q][2], e.D))]
    [] e.op = "fdepth" -> [m |-> mm, bad |-> Bad("recorded depth", e.r = Len(JLayers(mm.C)))]
    [] e.op = "fjuncs" -> [m |-> mm, bad |-> Bad("recorded number of junctions", e.r = Cardinality(UNION Seq2Set(JLayers(mm.C))))]
    [] e.op = "fmoments" -> [m |-> mm, bad |->  \* moments e.t of the faces e.faces over T; recorded list e.rec over T
          Bad("moments of the faces", \A k \in 1..Len(e.faces) : IsMoment(mm.C, mm.C.p, e.faces[k], e.last, <<>>, <<1>>, e.t[k], e.T))
          \cup Bad("all faces", Cardinality(Seq2Set(e.faces)) = Len(e.faces)
                 /\ Seq2Set(e.faces) = {f \in [1..mm.C.d -> {0, 1, 2}] : Cardinality({j \in 1..mm.C.d : f[j] = 2}) = e.fd})
          \cup Bad("recorded moments", Bag(e.t, e.rec))]
    [] e.op = "fdil" -> LET r == TLCEval(Dil(mm.C, e.k, e.S, e.K, e.lev)) IN [m |-> mm, bad |->
          Bad("recorded dilation is too big", r[2] < 0 \/ e.lof <= r[2])
          \cup Bad("recorded dilation is too small", r[1] <= e.upc)
          \cup Bad("not the published curve (dilation)", Near(Known[mm.name][e.k], r, e.S))]
    [] e.op = "kdil" -> LET r == TLCEval(Dil(mm.C, e.k, e.S, e.K, e.lev)) IN [m |-> mm, bad |->
          Bad("not the published curve (dilation)", Near(Known[mm.name][e.k], r, e.S))]
    [] e.op = "eqv" -> [m |-> mm, bad |-> Bad("equivalent curves", Same(2, 27, Cells(e.A, 3), Cells(e.B, 3), TRUE))]
    [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == 0
============================================================================
