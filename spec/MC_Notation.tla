---------------------------- MODULE MC_Notation ----------------------------
(* Design model of the notation: a walker visits every cube of the n-grid   *)
(* once by king moves and writes the chain down as it goes.  At every moment*)
(* the text written so far reads back as the walk; map and spec texts read  *)
(* back as what was printed.  Completed texts are printed for replay into   *)
(* the implementation.                                                      *)
EXTENDS Notation, TLC
CONSTANTS D, N, PNums
VARIABLES walk, txt
Grid == [1..D -> 0..(N - 1)]
Moves == {v \in [1..D -> {0 - 1, 0, 1}] : \E a \in 1..D : v[a] # 0}
Visited == {walk[k] : k \in 1..Len(walk)}
Init == \E c \in Grid : walk = <<c>> /\ txt = <<>>
Next == \E v \in Moves :
          LET x == walk[Len(walk)]
              y == [a \in 1..D |-> x[a] + v[a]]
          IN /\ y \in Grid \ Visited
             /\ walk' = Append(walk, y)
             /\ txt' = txt \o StepText(v)
             /\ IF Len(walk) + 1 = Exp(N, D) THEN PrintT(<<"BEH", txt \o StepText(v), walk'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<walk, txt>>
Reads == Len(walk) = Exp(N, D) =>
           LET p == ParseChain(txt) IN p.d = D /\ p.n = N /\ p.c = walk
ASSUME \A a \in Maps(D) : ParseMap(PrintMap(a)) = a
ASSUME \A a \in Maps(D), q \in PNums : ParseSpec(PrintSpec(<<a, q>>)) = <<a, q>>
============================================================================
