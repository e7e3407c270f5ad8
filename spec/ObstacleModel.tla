--------------------------- MODULE ObstacleModel ---------------------------
(* The motion law by itself: an environment that is simulated in portions of  *)
(* any size, while a planner looks ahead.  The state never depends on how the *)
(* time was divided, and what a planner foretold comes true unless a jump     *)
(* comes in between.                                                          *)
EXTENDS ObstacleMotion
CONSTANTS MaxT, P0, V0, A0, J1, J2
VARIABLES t, s, told
vars == <<t, s, told>>
Ev == << [t |-> J1, dp |-> 0, dv |-> 7000, da |-> 0], [t |-> J2, dp |-> 5000, dv |-> -3000, da |-> 40] >>
Start == <<P0, V0, -A0>>
Init == t = 0 /\ s = Start /\ told = [t |-> 0, s |-> Start]
Move(n) == /\ t + n <= MaxT /\ t' = t + n
           /\ s' = Go(s, t, t + n, Ev, Past(Ev, t) + 1, TRUE) /\ UNCHANGED told
Tell == told' = [t |-> t, s |-> s] /\ UNCHANGED <<t, s>>
Next == Tell \/ \E n \in {10, 30, 50, 70} : Move(n)
Spec == Init /\ [][Next]_vars
Near(a, b, tol) == a - b \in -tol..tol
Same(a, b) == Near(a[1], b[1], 20) /\ a[2] = b[2] /\ a[3] = b[3]
Undivided == Same(s, Go(Start, 0, t, Ev, 1, TRUE))
Foretold == Past(Ev, told.t) = Past(Ev, t) => Same(s, Glide(told.s, t - told.t))
BackAgain == Same(told.s, Glide(Glide(told.s, 35), -35))
==============================================================================
