------------------------------ MODULE MC_Limit -----------------------------
(* Design model: gates and moments of Hilbert's curve decided digit by      *)
(* digit.  For every candidate rational with small denominator, exactly one *)
(* candidate is accepted per question, and it is the known one.             *)
EXTENDS Limit, TLC
VARIABLES D, cand
M(p, f, r) == <<p, f, r>>
Hil == [d |-> 2, n |-> 2, p |-> 1, pats |-> <<[c |-> <<<<0,0>>,<<0,1>>,<<1,1>>,<<1,0>>>>,
   s |-> <<<<M(<<2,1>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<1,2>>,<<0,0>>,0),1>>, <<M(<<2,1>>,<<1,1>>,0),1>>>>]>>]
Init == D \in {1, 2, 3, 4, 6, 12, 15, 30} /\ cand \in (0..30) \X (0..30) /\ cand[1] <= D /\ cand[2] <= D
Next == UNCHANGED <<D, cand>>
Spec == Init /\ [][Next]_<<D, cand>>
X == <<<<cand[1]>>, <<cand[2]>>>>
Ends == /\ IsEnd(Hil, 1, 0, X, <<D>>) = (cand = <<0, 0>>)
        /\ IsEnd(Hil, 1, 1, X, <<D>>) = (cand = <<D, 0>>)
\* t = cand[1]/D: Hilbert's curve visits the vertices at 0, 1/3, 2/3, 1
Vertices == /\ IsMoment(Hil, 1, <<0, 0>>, 0, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (cand[1] = 0)
            /\ IsMoment(Hil, 1, <<0, 1>>, 0, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (3 * cand[1] = D)
            /\ IsMoment(Hil, 1, <<1, 1>>, 1, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (3 * cand[1] = 2 * D)
            /\ IsMoment(Hil, 1, <<1, 0>>, 0, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (cand[1] = D)
\* the left side is touched last at the moment of the vertex (0,1); top side first at the same moment
Faces    == /\ IsMoment(Hil, 1, <<0, 2>>, 0, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (cand[1] = 0)
            /\ IsMoment(Hil, 1, <<0, 2>>, 1, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (3 * cand[1] = D)
            /\ IsMoment(Hil, 1, <<2, 1>>, 0, <<>>, <<1>>, <<cand[1]>>, <<D>>) = (3 * cand[1] = D)
\* arithmetic: digits of x/D in base 7 agree with integer division
Digits == \A c \in 0..6 : Digit(7, <<cand[1]>>, c, <<D>>)[1] = (7 * cand[1] - c * D \in 0..D)
============================================================================
