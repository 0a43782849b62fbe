----------------------------- MODULE C12_Trace -----------------------------
(* C12: everything the generator returned for one configuration.            *)
(*  rs: restrictions (k = "link" with l, or k = "parent" with c, pl)        *)
(*  lk: links occurring in results, P: paths as <<cube number, link>> lists *)
EXTENDS TraceBase, PathGen

Judge12(e) ==
  LET S == System(e.d, e.n, e.D, e.links, e.maxd)
      code == Mat([z \in 1..Len(e.lk) |-> ImNo(S, e.lk[z])])
      tab == Mat([z \in 1..Len(e.P) |-> LET p == e.P[z] IN
                Mat([k \in 1..Len(p) |-> IF code[p[k][2]] = 0 THEN 0 - 1 ELSE p[k][1] * S.NI + code[p[k][2]] - 1])])
      R == Len(e.rs)
      all == Mat([k \in 1..R |-> TLCEval(IF e.rs[k].k = "link" THEN PathsOfLink(S, e.rs[k].l) ELSE PathsOfParent(S, e.rs[k].c, e.rs[k].pl))])
      acts == Mat([k \in 1..R |-> TLCEval({NodeAct(S, a) : a \in IF e.rs[k].k = "link" THEN LinkStab(S, e.rs[k].l) ELSE ParentStab(S, e.rs[k].c, e.rs[k].pl)})])
      needStd == {s.r : s \in {x \in Seq2Set(e.single) : x.std = 1}} \cup UNION {Seq2Set(t.rr) : t \in {x \in Seq2Set(e.tuple) : x.std = 1}}
      cls == Mat([k \in 1..R |-> TLCEval(IF k \in needStd THEN {{PathAct(S, na, p) : na \in acts[k]} : p \in all[k]} ELSE {})])
      OneEach(k, got) == \A c \in cls[k] : Cardinality(c \cap got) = 1
      Single(s) == LET got == {tab[z] : z \in Seq2Set(s.out)} IN
          Bad("not an admissible path", got \subseteq all[s.r])
          \cup Bad("repeated", Cardinality(got) = Len(s.out))
          \cup (IF s.std = 0 THEN Bad("path lost", all[s.r] \subseteq got) ELSE Bad("one path per symmetry class", OneEach(s.r, got)))
      RECURSIVE Prod(_, _)
      Prod(f, k) == IF k = 0 THEN 1 ELSE f[k] * Prod(f, k - 1)
      Tuple(t) ==
        LET m == Len(t.rr)
            same(i, j) == e.rs[t.rr[i]] = e.rs[t.rr[j]]
            group(i) == {j \in 1..m : same(i, j)}
            comp(i) == {tab[o[j]] : o \in Seq2Set(t.out), j \in group(i)}
            bagkey(o) == {<<i, p, Cardinality({j \in group(i) : o[j] = p})>> : i \in {x \in 1..m : \A y \in group(x) : x <= y}, p \in Seq2Set(o)}
            sizes == Mat([i \in 1..m |-> IF \E j \in group(i) : j < i THEN 1 ELSE Multi(Cardinality(cls[t.rr[i]]), Cardinality(group(i)))])
            full == Mat([i \in 1..m |-> Cardinality(all[t.rr[i]])])
        IN Bad("tuple length", \A o \in Seq2Set(t.out) : Len(o) = m)
           \cup Bad("not an admissible path", \A o \in Seq2Set(t.out) : \A i \in 1..m : tab[o[i]] \in all[t.rr[i]])
           \cup (IF t.std = 0 THEN Bad("all tuples once", Cardinality(Seq2Set(t.out)) = Len(t.out) /\ Len(t.out) = Prod(full, m))
                 ELSE Bad("unordered combinations once", /\ Cardinality({bagkey(o) : o \in Seq2Set(t.out)}) = Len(t.out)
                                                         /\ Len(t.out) = Prod(sizes, m))
                      \cup Bad("one path per symmetry class", Len(t.out) = 0 \/ \A i \in 1..m : OneEach(t.rr[i], comp(i))))
      Example(x) == IF x.found = 0 THEN Bad("example missing", \E i \in 1..Len(x.rr) : all[x.rr[i]] = {})
                    ELSE Bad("example", Len(x.out) = Len(x.rr) /\ \A i \in 1..Len(x.rr) : tab[x.out[i]] \in all[x.rr[i]])
  IN UNION {Single(s) : s \in Seq2Set(e.single)} \cup UNION {Tuple(t) : t \in Seq2Set(e.tuple)} \cup UNION {Example(x) : x \in Seq2Set(e.ex)}

J(mm, e) == IF e.op = "gen" THEN [m |-> mm, bad |-> Judge12(e)] ELSE [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
