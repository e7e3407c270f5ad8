-------------------------------- MODULE ADMM --------------------------------
(* The exchange protocol of the distributed problems: which version of which  *)
(* variable an agent works with.  Agents run in parallel inside a phase; the  *)
(* phases are separated by barriers.  Between two updates the horizon may     *)
(* have moved over any number of knots, and an update may take any number of  *)
(* iterations.  A variable is stamped with the iteration that produced it and *)
(* the number of knots it has been moved over.                                *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Agents, Nbr, MaxIter, PerUpdate, MaxKnots, Barrier
\* Nbr: the undirected graph, as a set of two-element sets
VARIABLES phase, done, k, left, knots, told, x, z, zn, l, ln, xin, zin, lin, seenX, seenZ
vars == <<phase, done, k, left, knots, told, x, z, zn, l, ln, xin, zin, lin, seenX, seenZ>>
N(a) == {b \in Agents : {a, b} \in Nbr}
Pairs == {<<a, b>> \in Agents \X Agents : {a, b} \in Nbr /\ a # b}
St(i, s) == [it |-> i, kn |-> s]
Init == /\ phase = "idle" /\ done = {} /\ k = 0 /\ left = 0 /\ knots = 0
        /\ told = [a \in Agents |-> 0]
        /\ x = [a \in Agents |-> St(0, 0)]
        /\ z = [a \in Agents |-> St(0, 0)]
        /\ l = [a \in Agents |-> St(0, 0)]
        /\ zn = [p \in Pairs |-> St(0, 0)]       \* <<a,b>>: a's copy of b
        /\ ln = [p \in Pairs |-> St(0, 0)]
        /\ xin = [p \in Pairs |-> St(0, 0)]      \* what a last received from b
        /\ zin = [p \in Pairs |-> St(0, 0)]
        /\ lin = [p \in Pairs |-> St(0, 0)]
        /\ seenX = [a \in Agents |-> {}] /\ seenZ = [a \in Agents |-> {}]
\* the clock moves between updates
Tick == /\ phase = "idle" /\ k < MaxIter
        /\ \E m \in 0..MaxKnots : knots' = knots + m
        /\ left' \in 1..PerUpdate
        /\ phase' = "shift" /\ done' = {} /\ k' = k + 1
        /\ UNCHANGED <<told, x, z, zn, l, ln, xin, zin, lin, seenX, seenZ>>
Ready(ph, a) == phase = ph /\ a \notin done
Mine(p, a) == p[1] = a
Shift(a) == /\ Ready("shift", a)
            /\ LET d == knots - told[a]
                   mv(s) == [s EXCEPT !.kn = @ + d]
                   mvp(f) == [p \in Pairs |-> IF Mine(p, a) THEN mv(f[p]) ELSE f[p]]
               IN /\ x' = [x EXCEPT ![a] = mv(@)] /\ z' = [z EXCEPT ![a] = mv(@)] /\ l' = [l EXCEPT ![a] = mv(@)]
                  /\ zn' = mvp(zn) /\ ln' = mvp(ln) /\ xin' = mvp(xin) /\ zin' = mvp(zin) /\ lin' = mvp(lin)
            /\ told' = [told EXCEPT ![a] = knots]
            /\ done' = done \cup {a}
            /\ UNCHANGED <<phase, k, left, knots, seenX, seenZ>>
XUpd(a) == /\ Ready("x", a)
           /\ seenX' = [seenX EXCEPT ![a] = {z[a], l[a]} \cup {zin[<<a, b>>] : b \in N(a)} \cup {lin[<<a, b>>] : b \in N(a)}]
           /\ x' = [x EXCEPT ![a] = St(k, knots)]
           /\ done' = done \cup {a}
           /\ UNCHANGED <<phase, k, left, knots, told, z, zn, l, ln, xin, zin, lin, seenZ>>
Comm(a, ph) == /\ Ready(ph, a)
               /\ xin' = [p \in Pairs |-> IF Mine(p, a) THEN x[p[2]] ELSE xin[p]]
               /\ zin' = [p \in Pairs |-> IF Mine(p, a) THEN zn[<<p[2], a>>] ELSE zin[p]]
               /\ lin' = [p \in Pairs |-> IF Mine(p, a) THEN ln[<<p[2], a>>] ELSE lin[p]]
               /\ done' = done \cup {a}
               /\ UNCHANGED <<phase, k, left, knots, told, x, z, zn, l, ln, seenX, seenZ>>
ZUpd(a) == /\ Ready("z", a)
           /\ seenZ' = [seenZ EXCEPT ![a] = {x[a]} \cup {xin[<<a, b>>] : b \in N(a)}]
           /\ z' = [z EXCEPT ![a] = St(k, knots)] /\ l' = [l EXCEPT ![a] = St(k, knots)]
           /\ zn' = [p \in Pairs |-> IF Mine(p, a) THEN St(k, knots) ELSE zn[p]]
           /\ ln' = [p \in Pairs |-> IF Mine(p, a) THEN St(k, knots) ELSE ln[p]]
           /\ done' = done \cup {a}
           /\ UNCHANGED <<phase, k, left, knots, told, x, xin, zin, lin, seenX>>
Following == [shift |-> "x", x |-> "comm1", comm1 |-> "z", z |-> "comm2", comm2 |-> "end"]
Next2 == phase # "idle" /\ phase # "end" /\ (done = Agents \/ (~Barrier /\ done # {}))
         /\ phase' = Following[phase] /\ done' = {}
         /\ UNCHANGED <<k, left, knots, told, x, z, zn, l, ln, xin, zin, lin, seenX, seenZ>>
End == /\ phase = "end"
       /\ IF left > 1 /\ k < MaxIter
          THEN left' = left - 1 /\ phase' = "shift" /\ k' = k + 1
          ELSE left' = 0 /\ phase' = "idle" /\ k' = k
       /\ done' = {}
       /\ UNCHANGED <<knots, told, x, z, zn, l, ln, xin, zin, lin, seenX, seenZ>>
Next == Tick \/ End \/ Next2 \/ \E a \in Agents : Shift(a) \/ XUpd(a) \/ ZUpd(a) \/ Comm(a, "comm1") \/ Comm(a, "comm2")
Spec == Init /\ [][Next]_vars

\* an agent optimizes against what the previous iteration produced, moved to the present horizon
XUsesPrevious == phase = "comm1" => \A a \in Agents : \A s \in seenX[a] : s = St(k-1, knots)
\* and coordinates with what its neighbours have just decided
ZUsesPresent == phase = "comm2" => \A a \in Agents : \A s \in seenZ[a] : s = St(k, knots)
\* nothing ever lags behind the horizon once an iteration is over
NothingLags == phase = "end" => /\ \A a \in Agents : {x[a], z[a], l[a]} = {St(k, knots)}
                                /\ \A p \in Pairs : {zin[p], lin[p], xin[p]} = {St(k, knots)}
=============================================================================
