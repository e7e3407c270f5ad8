------------------------------- MODULE Figures -------------------------------
(* What a figure shows.  A run is a history of samples (1..L) and the plans    *)
(* that were in force over each of the L-1 intervals between them.  A figure   *)
(* shows one sample s: the history up to s, and the plan that was in force     *)
(* then: the one over the interval that begins at s (at the very end, the one  *)
(* over the last interval).                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Dist(a, b) == IF a < b THEN b - a ELSE a - b
\* the samples that are closest to a time (two, right in between)
Nearest(times, t) == {s \in 1..Len(times) : \A m \in 1..Len(times) : Dist(times[s], t) <= Dist(times[m], t)}
\* the interval whose plan is shown with sample s, given that there are n of them
Over(s, n) == IF s <= n THEN s ELSE n
\* which samples a request may show
Wanted(times, how, arg) ==
    CASE how = "time" -> Nearest(times, arg)
      [] how = "index" -> {arg}
      [] OTHER -> {Len(times)}
\* the frames of a movie: from the start on, forward, at an even pace, never fewer than asked, to within a pace of the end
MovieOK(shown, L, n) ==
    /\ Len(shown) >= 1
    /\ 1 \in shown[1]
    /\ Len(shown) >= (IF n <= L - 1 THEN n ELSE L - 1)
    /\ LET pace == IF n <= L - 1 THEN (L - 1) \div (n - 1) ELSE 1
           at(k) == IF 1 + (k-1)*pace <= L THEN 1 + (k-1)*pace ELSE L
       IN \A k \in 1..Len(shown) : at(k) \in shown[k] \/ L \in shown[k]
    /\ \E s \in shown[Len(shown)] : s >= L - (IF n <= L - 1 THEN (L - 1) \div (n - 1) ELSE 1)
==============================================================================
