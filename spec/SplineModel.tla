---------------------------- MODULE SplineModel ----------------------------
(* The algebra on itself: any sequence of knot insertions and crops leaves    *)
(* the function alone.  Coefficients are multiples of Den so that nothing is  *)
(* rounded in the first steps.                                                *)
EXTENDS Splines
CONSTANTS D, KMAX, Den, Steps
VARIABLES s, s0, n
vars == <<s, s0, n>>
Knots == { [i \in 1..(2*D + 2 + Len(in)) |-> IF i <= D+1 THEN 0 ELSE IF i > D + 1 + Len(in) THEN KMAX ELSE in[i - D - 1]] :
           in \in { <<>> } \cup { <<a>> : a \in 1..(KMAX-1) } \cup { <<a, b>> : a \in 1..(KMAX-1), b \in 1..(KMAX-1) } }
Sorted(k) == \A i \in 1..(Len(k)-1) : k[i] <= k[i+1]
Init == /\ \E k \in { q \in Knots : Sorted(q) } :
             \E c \in [1..(Len(k) - D - 1) -> {0, Den}] : s = [k |-> k, d |-> D, c |-> c]
        /\ s0 = s /\ n = 0
Ins == \E u \in (Lo(s)+1)..(Hi(s)-1) : Mult(s, u) <= D /\ s' = Insert(s, u) /\ UNCHANGED s0 /\ n' = n + 1
Cut == \E a \in Lo(s)..(Hi(s)-1) : \E b \in (a+1)..Hi(s) : (a # Lo(s) \/ b # Hi(s)) /\ s' = Crop(s, a, b) /\ UNCHANGED s0 /\ n' = n + 1
Next == n < Steps /\ (Ins \/ Cut)
Spec == Init /\ [][Next]_vars
Ok(a, b) == a - b \in -3..3
Shape == WellFormed(s) /\ Clamped(s, Lo(s), Hi(s))
SameFunction == \A x \in Lo(s)..Hi(s) : /\ (x < Hi(s) => Ok(At(s, x), At(s0, x)))
                                        /\ (x > Lo(s) => Ok(AtL(s, x), AtL(s0, x)))
Hull == \A x \in Lo(s)..Hi(s) : At(s, x) \in -3..(Den + 3)
\* slopes are unchanged too (per knot unit)
SameSlope == D >= 1 => \A x \in Lo(s)..(Hi(s)-1) :
      LET a == At(Deriv(s, 1), x) b == At(Deriv(s0, 1), x) IN a - b \in -12..12
==============================================================================
