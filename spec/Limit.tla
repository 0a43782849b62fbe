------------------------------- MODULE Limit -------------------------------
(* Exact values of a curve at distinguished moments, as nested intervals:   *)
(* a rational is verified digit by digit along the itinerary of cubes until *)
(* the orientation repeats; being periodic there is equivalent to being the *)
(* limit point.                                                             *)
EXTENDS Curve, BigNat

\* faces: face[j] in {0, 1} fixes coordinate j, 2 leaves it free
OnFace(n, face, c) == \A j \in 1..Len(c) : (face[j] = 0 => c[j] = 0) /\ (face[j] = 1 => c[j] = n - 1)
FirstOn(C, sp, face) == LET S == {k \in 1..Genus(C) : OnFace(C.n, face, OCube(C, sp, k))}
                        IN CHOOSE k \in S : \A l \in S : k <= l
LastOn(C, sp, face)  == LET S == {k \in 1..Genus(C) : OnFace(C.n, face, OCube(C, sp, k))}
                        IN CHOOSE k \in S : \A l \in S : l <= k
\* number of the cube the itinerary follows in the curve oriented by sp
Pick(C, mode, face, sp) == CASE mode = "entrance" -> 1
                             [] mode = "exit"     -> Genus(C)
                             [] mode = "first"    -> FirstOn(C, sp, face)
                             [] mode = "last"     -> LastOn(C, sp, face)

\* x[j]/D: claimed coordinates, t[1]/T: claimed time (limb sequences); an empty x (t) claims nothing
RECURSIVE Walk(_, _, _, _, _, _, _, _, _)
Walk(C, mode, face, sp, x, D, t, T, seen) ==
  IF \E q \in 1..Len(seen) : seen[q][1] = sp
  THEN LET q == CHOOSE q \in 1..Len(seen) : seen[q][1] = sp
       IN seen[q][2] = x /\ seen[q][3] = t
  ELSE LET k  == Pick(C, mode, face, sp)
           c  == OCube(C, sp, k)
           xs == Mat([j \in 1..Len(x) |-> Digit(C.n, x[j], c[j], D)])
           ts == Mat([j \in 1..Len(t) |-> Digit(Genus(C), t[j], k - 1, T)])
       IN /\ \A j \in 1..Len(x) : xs[j][1]
          /\ \A j \in 1..Len(t) : ts[j][1]
          /\ Walk(C, mode, face, OSpec(C, sp, k), Mat([j \in 1..Len(x) |-> xs[j][2]]), D,
                  Mat([j \in 1..Len(t) |-> ts[j][2]]), T, Append(seen, <<sp, x, t>>))

NormX(x, D) == [j \in 1..Len(x) |-> Norm(x[j], Len(D))]
\* x/D is f(0) (last = 0) or f(1) (last = 1) of pattern q
IsEnd(C, q, last, x, D) ==
  Len(x) = C.d /\ Walk(C, IF last = 1 THEN "exit" ELSE "entrance", <<>>, Root(C, q), NormX(x, D), D, <<>>, <<1>>, <<>>)

\* t/T is the first (last) moment pattern q touches the face; x/D, when given, the point it touches
IsMoment(C, q, face, last, x, D, t, T) ==
  Walk(C, IF last = 1 THEN "last" ELSE "first", face, Root(C, q), NormX(x, D), D, <<Norm(t, Len(T))>>, T, <<>>)

\* value at a given moment: x/D is the value at t/T of the curve oriented by sp (continuous curve: at a moment
\* common to two fractions the earlier or the later one may be followed; the later one is).
\* Largest digit c with c*T <= n*t
RECURSIVE TopDigit(_, _, _, _)
TopDigit(n, t, c, T) == IF c = 0 THEN 0 ELSE IF Step(n, t, c, T)[1] = 0 THEN c ELSE TopDigit(n, t, c - 1, T)
RECURSIVE WalkAt(_, _, _, _, _, _, _)
WalkAt(C, sp, x, D, t, T, seen) ==
  IF \E q \in 1..Len(seen) : seen[q][1] = sp /\ seen[q][3] = t
  THEN LET q == CHOOSE q \in 1..Len(seen) : seen[q][1] = sp /\ seen[q][3] = t
       IN seen[q][2] = x
  ELSE LET k  == 1 + TopDigit(Genus(C), t, Genus(C) - 1, T)
           c  == OCube(C, sp, k)
           xs == Mat([j \in 1..Len(x) |-> Digit(C.n, x[j], c[j], D)])
           ts == Digit(Genus(C), t, k - 1, T)
       IN /\ \A j \in 1..Len(x) : xs[j][1]
          /\ ts[1]
          /\ WalkAt(C, OSpec(C, sp, k), Mat([j \in 1..Len(x) |-> xs[j][2]]), D, ts[2], T, Append(seen, <<sp, x, t>>))
IsValue(C, sp, x, D, t, T) == Leq(t, T) /\ WalkAt(C, sp, NormX(x, D), D, Norm(t, Len(T)), T, <<>>)
============================================================================
