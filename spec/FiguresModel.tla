----------------------------- MODULE FiguresModel -----------------------------
(* A run that goes on, re-plans every few samples, and is looked at: figures   *)
(* of now go along, figures of a moment show that moment (until the run goes   *)
(* on), movies run through it.                                                 *)
EXTENDS Figures
CONSTANTS MaxL, Steps, Ts, MaxFigs
VARIABLES L,      \* samples so far
          over,   \* over[k]: at which sample the plan in force over interval k was made
          figs,   \* the samples that the open figures show
          asked   \* the moment asked for last, and whether the run has gone on since
vars == <<L, over, figs, asked>>
Times == [k \in 1..L |-> (k - 1)*Ts]
Init == L = 1 /\ over = <<>> /\ figs = <<>> /\ asked = <<>>
Step == \E n \in Steps : L + n <= MaxL /\ L' = L + n /\ over' = over \o [k \in 1..n |-> L]
           /\ figs' = [f \in 1..Len(figs) |-> L + n] /\ asked' = <<>>
Look == L > 1 /\ Len(figs) < MaxFigs /\ \E t \in 0..(MaxL*Ts) : \E s \in Wanted(Times, "time", t) : figs' = Append(figs, s) /\ asked' = <<t>> /\ UNCHANGED <<L, over>>
Next == Step \/ Look
Spec == Init /\ [][Next]_vars
\* the plan that is shown is the one followed at that moment: made then or before, and not yet replaced
InForce == \A f \in 1..Len(figs) : LET m == over[Over(figs[f], L - 1)] IN
              m <= figs[f] /\ \A k \in 1..(L-1) : ~(m < over[k] /\ over[k] <= figs[f] /\ figs[f] < L)
InPast == \A f \in 1..Len(figs) : figs[f] \in 1..L
\* never more than half a sample off, unless the run does not reach that far
HalfSample == asked = <<>> \/ LET s == figs[Len(figs)] IN 2*Dist(Times[s], asked[1]) <= Ts \/ s = L
\* an evenly paced walk through the run is always a movie
Walk(n) == LET pace == IF n <= L - 1 THEN (L - 1) \div (n - 1) ELSE 1
               c == (L - 1 + pace - 1) \div pace
               N == IF n <= L - 1 THEN n ELSE L - 1
           IN [k \in 1..(IF c < N THEN N ELSE c) |-> IF k <= c THEN {1 + (k-1)*pace} ELSE {L}]
MoviesExist == L < 3 \/ \A n \in 2..(MaxL + 1) : MovieOK(Walk(n), L, n)
===============================================================================
