----------------------------- MODULE TraceBase -----------------------------
(* Generic trace checker.  A trace file (ndjson, one recorded call of the   *)
(* implementation per line) is replayed event by event: the abstract state  *)
(* trm is advanced by the specification and Judge says which clauses of the   *)
(* specification the recorded results violate.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Judge(_, _),   \* (abstract state, event) -> [m |-> new state, bad |-> set of violated clauses]
          M0             \* initial abstract state

VARIABLES tri, trm

Trace == ndJsonDeserialize(IOEnv.TRACE)

First == IF "FIRST" \in DOMAIN IOEnv THEN atoi(IOEnv.FIRST) ELSE 1

Init == tri = First /\ trm = M0

Next == /\ tri <= Len(Trace)
        /\ LET e == Trace[tri]
               v == Judge(trm, e)
           IN  /\ IF v.bad = {} THEN TRUE ELSE PrintT(<<"FAIL", e.id, v.bad>>)
               /\ trm' = v.m
        /\ tri' = tri + 1

Spec == Init /\ [][Next]_<<tri, trm>>

Bad(name, ok) == IF ok THEN {} ELSE {name}
Seq2Set(s) == {s[k] : k \in 1..Len(s)}
============================================================================
