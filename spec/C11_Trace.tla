----------------------------- MODULE C11_Trace -----------------------------
(* C11: histories of operations on curve classes.  The abstract state holds *)
(* one class per live handle; observations of the code's objects are judged *)
(* against it.                                                              *)
EXTENDS TraceBase, Class

GroupOf(e) == IF e.g = "full" THEN Maps(e.d) ELSE IF e.g = "cube" THEN CubeMaps(e.d) ELSE Seq2Set(e.gl)
NewClass(e) == [d |-> e.d, n |-> e.n, D |-> e.D, p |-> 1, G |-> GroupOf(e),
                pats |-> [q \in 1..Len(e.paths) |-> [c |-> e.paths[q].c, l |-> e.paths[q].l, s |-> [k \in 1..Len(e.paths[q].c) |-> <<>>]]]]
Admits(cl) == \A q \in 1..Len(cl.pats) : \A k \in 1..Len(cl.pats[q].c) : Admissible(cl, q, k) # {}

\* product of the numbers of allowed specs as base-2^14 limbs
RECURSIVE MulSmall(_, _, _, _)
MulSmall(a, x, k, acc) == IF k > Len(a) THEN (IF acc[1] = 0 THEN acc[2] ELSE Append(acc[2], acc[1]))
                          ELSE LET v == a[k] * x + acc[1] IN MulSmall(a, x, k + 1, <<v \div 16384, Append(acc[2], v % 16384)>>)
RECURSIVE Product(_, _, _)
Product(xs, k, acc) == IF k > Len(xs) THEN acc ELSE Product(xs, k + 1, MulSmall(acc, xs[k], 1, <<0, <<>>>>))
Flat(al) == LET L == Len(al[1]) IN Mat([z \in 1..(Len(al) * L) |-> Cardinality(al[1 + ((z - 1) \div L)][1 + ((z - 1) % L)])])
RECURSIVE SmallProd(_, _)
SmallProd(xs, k) == IF k > Len(xs) THEN 1 ELSE xs[k] * SmallProd(xs, k + 1)

Obs(cl, e) ==
  LET al == AllowedAll(cl) IN
  Bad("prototypes", \A q \in 1..Len(cl.pats) : e.pats[q].c = cl.pats[q].c)
  \cup Bad("specified fractions", \A q \in 1..Len(cl.pats) : e.pats[q].s = cl.pats[q].s)
  \cup Bad("selected pattern", e.p = cl.p)
  \cup Bad("allowed specs", \A q \in 1..Len(al) : \A k \in 1..Len(al[q]) :
              Seq2Set(e.al[q][k]) = al[q][k] /\ Len(e.al[q][k]) = Cardinality(al[q][k]))
  \cup Bad("number of members", e.count = Product(Flat(al), 1, <<1>>))
  \cup (IF e.ex = <<>> THEN {} ELSE Bad("example is a member", IsMember(cl, al, e.ex[1]) /\ e.ex[1].p = cl.p))
  \cup (IF e.mem = <<>> THEN {} ELSE
          Bad("list of members", /\ Len(e.mem[1]) = SmallProd(Flat(al), 1)
                                 /\ Cardinality(Seq2Set(e.mem[1])) = Len(e.mem[1])
                                 /\ \A v \in Seq2Set(e.mem[1]) : \A z \in 1..Len(v) : v[z] >= 1
                                 /\ e.memok = 1))
  \cup Bad("members", \A z \in 1..Len(e.smp) : IsMember(cl, al, e.smp[z]) /\ e.smp[z].p = cl.p)

With(mm, h, cl) == IF h <= Len(mm) THEN [mm EXCEPT ![h] = cl] ELSE Append(mm, cl)

J(mm, e) ==
   CASE e.op = "new" -> LET cl == NewClass(e) IN
          [m |-> IF e.ok = 1 THEN With(<<>>, 1, cl) ELSE <<>>,
           bad |-> Bad("class exists iff every link is an admissible image of a global link", (e.ok = 1) <=> Admits(cl))]
     [] e.op = "specify" ->
          LET cl == mm[e.h]
              fits == e.sp \in Allowed(cl, e.q, e.k)
          IN [m |-> IF e.ok = 1 THEN With(mm, e.h2, Specify(cl, e.q, e.k, e.sp)) ELSE mm,
              bad |-> Bad("accepts exactly the admissible specs", (e.ok = 1) <=> fits)]
     [] e.op = "act" -> [m |-> With(mm, e.h2, LET c2 == ClassAct(mm[e.h], e.a) IN IF e.p = 0 THEN c2 ELSE [c2 EXCEPT !.p = e.p]), bad |-> {}]
     [] e.op = "obs" -> [m |-> mm, bad |-> Obs(mm[e.h], e)]
     [] e.op = "forget" -> \* the curve belongs to its own class
          LET cl == NewClass(e) IN
          [m |-> With(<<>>, 1, cl),
           bad |-> Bad("class exists", Admits(cl)) \cup
                   Bad("curve belongs to the class of its gates", IsMember([cl EXCEPT !.p = 1], AllowedAll(cl), e.C))]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
