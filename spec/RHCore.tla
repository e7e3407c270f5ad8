------------------------------- MODULE RHCore -------------------------------
(* Where "now" lies on a plan: operators shared by the design model           *)
(* (RecHorizon), the trace specification (RHTrace) and the ADMM models.       *)
EXTENDS Integers
\* number of whole knot intervals of length Knum/Kden in d
Passed(d, Knum, Kden) == (d * Kden) \div Knum
\* horizon parameter t, times Kden, for elapsed time d since the start
RelTimes(d, Knum, Kden) == d*Kden - Knum * Passed(d, Knum, Kden)
\* nominal delay of an update that comes e after the previous one
Delay(e, upd) == IF e > upd THEN e - upd ELSE 0
\* over which span before "now" inputs of the previous plan are integrated
Span(e, upd) == IF upd <= e THEN upd ELSE e

=============================================================================
