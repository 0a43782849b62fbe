-------------------------------- MODULE Memo -------------------------------
(* The system as its user sees it: a pool of immutable objects and queries  *)
(* whose answers are functions of the query alone.  State: the answer of    *)
(* every query asked so far and the contents of every object.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Known(f, k) == k \in DOMAIN f
Learn(f, k, v) == IF k \in DOMAIN f THEN f ELSE f @@ (k :> v)
Agrees(f, k, v) == k \in DOMAIN f => f[k] = v
============================================================================
