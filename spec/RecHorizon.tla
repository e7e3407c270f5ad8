----------------------------- MODULE RecHorizon -----------------------------
(* The receding horizon loop on an integer clock (one unit = one sample).     *)
(* A plan is an object that lives in absolute time: it covers                 *)
(* [origin, origin+N].  Everything the loop hands to the optimizer, publishes *)
(* and records is determined by where "now" lies on that plan.                *)
(* The fixed-horizon origin moves by whole knot intervals K only; the free    *)
(* time origin is always "now".                                               *)
EXTENDS Integers, Sequences, FiniteSets, RHCore

\* ---- design model: the algorithm, step by step, for every schedule --------
CONSTANTS N, K, Upd, Steps, MaxT, Start
VARIABLES now, start, first, prev, origin, shifts, len, src, pend, tpar, predAt
\* now: clock; prev: time of previous update; origin: origin of the plan in force
\* shifts: knots the guess was moved over in the last update; len: recorded samples after the first
\* src: for every recorded sample, the time of the update whose plan it follows
vars == <<now, start, first, prev, origin, shifts, len, src, pend, tpar, predAt>>
Init == /\ now = Start /\ start = Start /\ first = TRUE /\ prev = Start /\ origin = Start
        /\ shifts = 0 /\ len = 0 /\ src = <<>> /\ pend = "update" /\ tpar = 0 /\ predAt = Start
Update == /\ pend = "update" /\ now - Start <= MaxT
          /\ LET st == IF first THEN now ELSE start
                 e  == now - prev
                 d0 == Delay(e, Upd)
                 u  == Span(e, Upd)
                 a  == Passed(prev - st, K, 1)
                 b  == Passed(now - st, K, 1)
             IN /\ start' = st
                /\ shifts' = IF first THEN 0 ELSE b - a
                /\ tpar' = RelTimes(now - st, K, 1)
                /\ origin' = IF first THEN now ELSE origin + K*(b - a)
                \* index into the trajectory published at prev that is used as prediction
                /\ predAt' = IF first THEN now ELSE prev + u + d0
          /\ first' = FALSE /\ prev' = now /\ pend' = "simulate"
          /\ UNCHANGED <<now, len, src>>
Simulate == /\ pend = "simulate"
            /\ \E n \in Steps :
                 /\ n <= N - tpar
                 /\ len' = len + n
                 /\ src' = src \o [k \in 1..n |-> prev]
                 /\ now' = now + n
            /\ pend' = "update"
            /\ UNCHANGED <<start, first, prev, origin, shifts, tpar, predAt>>
Restart == /\ pend = "update" /\ ~first /\ first' = TRUE
           /\ UNCHANGED <<now, start, prev, origin, shifts, len, src, pend, tpar, predAt>>
Next == Update \/ Simulate \/ Restart
Spec == Init /\ [][Next]_vars

\* the clock, the history and the plan in force always agree
ClockAgrees == len = now - Start
HistoryOrdered == \A k \in 1..(Len(src)-1) : src[k] <= src[k+1]
SourceInPast == \A k \in 1..Len(src) : src[k] < Start + k
\* t stays within the first knot interval and locates "now" on the plan
TInKnot == 0 <= tpar /\ tpar < K
PlanCoversNow == pend = "simulate" => origin + tpar = now
\* the prediction is the state of the previous plan at the moment of the re-plan
PredictsNow == pend = "simulate" => predAt = now
\* the guess is the previous plan, moved: origin only ever moves forward
OriginForward == [][~first => origin' >= origin]_vars
=============================================================================
