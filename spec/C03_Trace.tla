----------------------------- MODULE C03_Trace -----------------------------
(* C03: texts read and written by the code against the notation.            *)
EXTENDS TraceBase, Notation

J(mm, e) ==
  [m |-> mm, bad |->
   LET t == IF "t" \in DOMAIN e THEN NoBlanks(e.t) ELSE <<>> IN
   CASE e.op = "map"   -> Bad("meaning of the map text", e.r = ParseMap(t))
     [] e.op = "spec"  -> Bad("meaning of the spec text", e.r = ParseSpec(t))
     [] e.op = "chain" -> LET p == ParseChain(t) IN Bad("meaning of the chain", e.r = p.c /\ e.rd = p.d /\ e.rn = p.n)
     [] e.op = "beh"   -> Bad("meaning of the chain", e.r = e.c)
     [] e.op = "pattern" -> Bad("meaning of the pattern", e.r = ParsePattern(t))
     [] e.op = "point" -> Bad("meaning of the point", PointIs(t, e.D, e.r))
     [] e.op = "gate"  -> Bad("meaning of the gate", GateIs(t, e.D, e.r[1], e.r[2]))
     [] e.op = "pmap"   -> Bad("printed map", MapText(t) /\ ParseMap(t) = e.o)
     [] e.op = "pspec"  -> Bad("printed spec", SpecText(t) /\ ParseSpec(t) = e.o)
     [] e.op = "pchain" -> Bad("printed chain", ChainText(t) /\ ParseChain(t).c = e.o /\ PlainSteps(t))
     [] e.op = "ppattern" -> Bad("printed pattern", PatternText(t) /\ ParsePattern(t) = e.o)
     [] e.op = "pline"  -> Bad("printed curve line", ParseCurveLine(t) = <<e.q - 1, e.o>>)
     [] e.op = "ppoint" -> Bad("printed point", PointText(t) /\ PointIs(t, e.D, e.o))
     [] e.op = "pgate"  -> Bad("printed gate", GateIs(t, e.D, e.o[1], e.o[2]))
     [] e.op = "round"  -> Bad("round trip", e.same = 1)
     [] OTHER -> {"unknown event"}]
MInit == 0
============================================================================
