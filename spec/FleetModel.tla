----------------------------- MODULE FleetModel -----------------------------
(* How a fleet of any size comes to its constraints: every vehicle in turn     *)
(* looks at its neighbours and ties itself to those it is not tied to yet; a   *)
(* central problem with a circular interconnection then drops the couples      *)
(* registered with the last two vehicles, which the others imply.              *)
EXTENDS Fleet, TLC
CONSTANTS NMAX, Drop       \* Drop: smallest N from which the last two are dropped
VARIABLES N, inter, l, todo, reg, pc
vars == <<N, inter, l, todo, reg, pc>>
Init == /\ N \in 1..NMAX /\ inter \in {"circular", "full"} /\ l = 0
        /\ todo = Nghb(N, inter, 0) /\ reg = [v \in 0..(N-1) |-> {}] /\ pc = "tie"
Tie == pc = "tie" /\ \E m \in todo :
   /\ todo' = todo \ {m}
   /\ reg' = IF l \in reg[m] \/ m \in reg[l] THEN reg ELSE [reg EXCEPT ![l] = @ \cup {m}]
   /\ UNCHANGED <<N, inter, l, pc>>
Next1 == pc = "tie" /\ todo = {} /\ l < N - 1
   /\ l' = l + 1 /\ todo' = Nghb(N, inter, l + 1) /\ UNCHANGED <<N, inter, reg, pc>>
Prune == pc = "tie" /\ todo = {} /\ l = N - 1
   /\ pc' = "done"
   /\ reg' = [v \in 0..(N-1) |-> IF inter = "circular" /\ N >= Drop /\ v >= N - 2 THEN {} ELSE reg[v]]
   /\ UNCHANGED <<N, inter, l, todo>>
Next == Tie \/ Next1 \/ Prune
Spec == Init /\ [][Next]_vars
Couples == UNION {{ {v, m} : m \in reg[v] } : v \in 0..(N-1)}
NeverAlone == \A v \in 0..(N-1) : \A m \in reg[v] : m # v
Mutual == \A v, m \in 0..(N-1) : m \in Nghb(N, inter, v) <=> v \in Nghb(N, inter, m)
Once == \A v, m \in 0..(N-1) : ~(m \in reg[v] /\ v \in reg[m])
Whole == pc = "done" => Connected(N, Couples)
\* dropped: nothing is imposed twice
Lean == pc = "done" /\ inter = "circular" /\ N > 1 => Cardinality(Couples) = N - 1
==============================================================================
