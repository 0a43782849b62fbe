------------------------------ MODULE MC_Memo ------------------------------
(* Design model: a function of two arguments behind a bounded cache with    *)
(* any eviction, shared by two clients whose calls interleave, refines the  *)
(* plain function as long as the key holds everything the answer depends    *)
(* on; objects handed out are never written to.                             *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Args, Size
VARIABLES cache, last, truth
vars == <<cache, last, truth>>
Keys == Args \X Args
Init == truth \in [Keys -> {0, 1}] /\ cache = {} /\ last = [c \in {1, 2} |-> <<>>]
Ask(c, k) == LET hit == {x \in cache : x[1] = k} IN
             IF hit # {} THEN /\ last' = [last EXCEPT ![c] = CHOOSE x \in hit : TRUE] /\ UNCHANGED <<cache, truth>>
             ELSE /\ last' = [last EXCEPT ![c] = <<k, truth[k]>>] /\ UNCHANGED truth
                  /\ \E keep \in SUBSET cache : Cardinality(keep) < Size /\ cache' = keep \cup {<<k, truth[k]>>}
                  
AskNoCache(c, k) == Size = 0 /\ last' = [last EXCEPT ![c] = <<k, truth[k]>>] /\ UNCHANGED <<cache, truth>>
Next == \E c \in {1, 2}, k \in Keys : Ask(c, k) \/ AskNoCache(c, k)
Spec == Init /\ [][Next]_vars
Right == \A c \in {1, 2} : last[c] = <<>> \/ last[c][2] = truth[last[c][1]]
Bounded == Cardinality(cache) <= Size
============================================================================
