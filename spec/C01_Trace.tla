----------------------------- MODULE C01_Trace -----------------------------
(* C01: every recorded result of the base map / spec algebra is the result  *)
(* of the abstract group Iso, whatever was computed before.                 *)
EXTENDS TraceBase, Iso


J(mm, e) ==
  [m |-> mm, bad |->
   CASE e.op = "mul"   -> Bad("product", e.r = Mul(e.a, e.b))
     [] e.op = "inv"   -> Bad("inverse", e.r = Inv(e.a))
     [] e.op = "pow"   -> Bad("power", e.r = Pow(e.a, e.k))
     [] e.op = "rev"   -> Bad("time reversal", e.r = Rev(e.a))
     [] e.op = "cubeof" -> Bad("cube map", e.r = CubeOf(e.a))
     [] e.op = "id"    -> Bad("identity", e.r = Id(e.d))
     [] e.op = "conj"  -> Bad("conjugation", e.r = Conj(e.a, e.g))
     [] e.op = "new"   -> Bad("construction", e.r = e.a /\ IsMap(e.r) /\ e.dim = Len(e.a[1]))
     [] e.op = "eq"    -> Bad("equality", (e.r = 1) = (e.a = e.b)) \cup Bad("hash", (e.a = e.b) => e.h = 1)
     [] e.op = "x"     -> Bad("action on points", e.r = ActX(e.a, e.x, e.mx))
     [] e.op = "t"     -> Bad("action on times", e.r = ActT(e.a, e.t, e.mt))
     [] e.op = "vec"   -> Bad("action on vectors", e.r = ActVec(e.a, e.x))
     [] e.op = "cube"  -> Bad("action on cubes", e.r = ActCube(e.a, e.n, e.c))
     [] e.op = "start" -> Bad("action on cube starts", e.r = ActStart(e.a, e.c, e.l))
     [] e.op = "cnum"  -> Bad("action on cube numbers", e.r = ActCnum(e.a, e.G, e.k))
     [] e.op = "word"  -> \* a word of maps evaluated with some bracketing equals the left product
          LET RECURSIVE W(_)
              W(k) == IF k = 0 THEN Id(e.d) ELSE Mul(W(k - 1), e.w[k])
          IN Bad("associativity", e.r = W(Len(e.w)))
     [] e.op = "gen"   ->
          LET S == Seq2Set(e.r)
              want == IF e.tr = -1 THEN NMaps(e.d) ELSE NMaps(e.d) \div 2
          IN Bad("enumeration repeats a map", Cardinality(S) = Len(e.r))
             \cup Bad("enumeration is incomplete", Len(e.r) = want)
             \cup Bad("enumeration yields a wrong map", \A a \in S : IsMap(a) /\ Len(a[1]) = e.d /\ (e.tr \in {-1, a[3]}))
     [] e.op = "smul"  -> Bad("spec product", e.r = SMul(e.s, e.t))
     [] e.op = "sleft" -> Bad("map times spec", e.r = SAct(e.a, e.s))
     [] e.op = "sright" -> Bad("spec times map", e.r = SRight(e.s, e.a))
     [] e.op = "srev"  -> Bad("spec reversal", e.r = SRev(e.s))
     [] e.op = "sconj" -> Bad("spec conjugation", e.r = SConj(e.s, e.g))
     [] e.op = "snew"  -> Bad("spec construction", e.r = e.s)
     [] OTHER -> {"unknown event"}]

MInit == 0
============================================================================
