------------------------------- MODULE Fleet -------------------------------
(* Who talks to whom in a fleet, and what a formation is.                     *)
(* Vehicles are 0..N-1.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Nghb(N, inter, l) == IF inter = "full" THEN (0..(N-1)) \ {l}
                     ELSE {(l+1) % N, (l+N-1) % N} \ {l}
\* the vehicles that can be reached from v over the couples es (sets of two vehicles)
RECURSIVE Grow(_, _, _)
Grow(es, seen, k) == IF k = 0 THEN seen
                     ELSE Grow(es, seen \cup UNION {e \in es : e \cap seen # {}}, k - 1)
Connected(N, es) == N < 2 \/ Grow(es, {0}, N) = 0..(N-1)
\* couples on which constraints are imposed: every pair of neighbours once
AllCouples(N, inter) == UNION {{ {l, m} : m \in Nghb(N, inter, l) } : l \in 0..(N-1)}
\* the positions c (sequences of numbers) of all vehicles agree with the configuration f: up to a common shift
Gap(c, f, l, m, d) == (c[l][d] - f[l][d]) - (c[m][d] - f[m][d])
==============================================================================
