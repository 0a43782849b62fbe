----------------------------- MODULE C17_Trace -----------------------------
(* C17: threshold test on a class.                                          *)
(* "class": the specification computes the minimum over the members (small  *)
(* classes), or an upper bound of it from a member given as a hint, which   *)
(* is checked to be a member.  good/bad are scaled by S, rounded so that    *)
(* an alarm is never due to rounding.                                       *)
EXTENDS TraceBase, ClassMin

HintUp(cl, al, e) == IF e.hint = <<>> THEN 0 - 1
                     ELSE IF ~IsMember(cl, al, e.hint[1]) THEN 0 - 2
                     ELSE DilCap(e.hint[1], e.k, e.S, e.K, 14, 0 - 1)[2]

J(mm, e) ==
   CASE e.op = "class" ->
          LET cl == TLCEval(MkClass(e))
              al == TLCEval(AllowedAll(cl))
              as == TLCEval(AlSeq(al))
              mn == TLCEval(IF e.hint = <<>> THEN MinDil(cl, as, e.k, e.S, e.K, 14) ELSE <<0, HintUp(cl, al, e)>>)
          IN [m |-> [cl |-> cl, al |-> al, k |-> e.k, S |-> e.S, K |-> e.K, mn |-> TLCEval(mn)],
              bad |-> Bad("hint is a member", mn[2] # 0 - 2)]
     [] e.op = "curve" ->
          [m |-> mm, bad |-> Bad("returned curve is a member", IsMember(mm.cl, mm.al, e.C))
                       \cup Bad("returned curve is within the good threshold", Dil(e.C, mm.k, mm.S, mm.K, 14)[1] <= e.goodc)]
     [] e.op = "none" ->
          [m |-> mm, bad |-> Bad("nothing returned although a member is below the bad threshold", mm.mn[2] < 0 \/ mm.mn[2] >= e.badf)]
     [] OTHER -> [m |-> mm, bad |-> {"unknown event"}]
MInit == <<>>
============================================================================
