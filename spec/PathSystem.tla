---------------------------- MODULE PathSystem -----------------------------
(* Growth of cube paths.  A node is <<cube, state>>; a rule gives for every *)
(* node the possible (step, new state) pairs.  A complete path visits every *)
(* cube of the n-grid exactly once, starts and finishes in given nodes and  *)
(* every step obeys the rule.                                               *)
EXTENDS Iso, TLC

InGrid(n, c) == \A j \in 1..Len(c) : c[j] >= 0 /\ c[j] < n
Plus(c, v) == Mat([j \in 1..Len(c) |-> c[j] + v[j]])
\* cube number <-> cube (row-major)
RECURSIVE CubeNo(_, _, _)
CubeNo(n, c, k) == IF k = 0 THEN 0 ELSE CubeNo(n, c, k - 1) * n + c[k]
No(n, c) == CubeNo(n, c, Len(c))
CubeAt(d, n, z) == Mat([j \in 1..d |-> (z \div Exp(n, d - j)) % n])

\* nodes are coded as cube * S + state; succ[node + 1]: set of nodes that may follow
RECURSIVE Complete(_, _, _, _, _, _)
Complete(S, N, succ, fin, path, seen) ==
  IF Len(path) = N THEN (IF path[N] \in fin THEN {path} ELSE {})
  ELSE UNION {Complete(S, N, succ, fin, Append(path, nd), seen \cup {nd \div S}) :
                nd \in {x \in succ[path[Len(path)] + 1] : (x \div S) \notin seen}}
AllPaths(S, N, succ, start, fin) == UNION {Complete(S, N, succ, fin, <<nd>>, {nd \div S}) : nd \in start}

\* ---- two-sided growth with breadth budgets, as a step-by-step construction
Heads(P) == {p[Len(p)] : p \in P}
Cubes(S, p) == {p[k] \div S : k \in 1..Len(p)}
Forward(S, succ, P) == UNION {{Append(p, x) : x \in {y \in succ[p[Len(p)] + 1] : (y \div S) \notin Cubes(S, p)}} : p \in P}
\* finish paths are kept reversed: last element is the one closest to the middle
Backward(S, NN, succ, P) == UNION {{Append(p, x) : x \in {y \in 0..(NN - 1) : p[Len(p)] \in succ[y + 1] /\ (y \div S) \notin Cubes(S, p)}} : p \in P}
Rvs(p) == Mat([k \in 1..Len(p) |-> p[Len(p) + 1 - k]])
RECURSIVE GrowTo(_, _, _, _)
GrowTo(S, succ, P, len) == IF P = {} THEN {}
                           ELSE LET l == Len(CHOOSE p \in P : TRUE) IN
                                IF l = len THEN P ELSE GrowTo(S, succ, Forward(S, succ, P), len)
Glued(S, N, succ, A, B) ==
  IF A = {} \/ B = {} THEN {}
  ELSE LET bl == Len(CHOOSE p \in B : TRUE)
           mid == GrowTo(S, succ, A, N - bl + 1)
       IN {p \o Tail(Rvs(b)) : <<p, b>> \in {pb \in mid \X B : pb[1][Len(pb[1])] = pb[2][bl]
                 /\ Cubes(S, Tail(Rvs(pb[2]))) \cap Cubes(S, pb[1]) = {}}}
============================================================================
