------------------------------ MODULE ADMMCore ------------------------------
(* The coordination step of alternating directions for agents that must agree *)
(* on a common centre (formation, rendezvous), in integers.                   *)
(* Every agent keeps a copy of its own centre and of every neighbour's; the   *)
(* copies minimise  sum l(x-z) + rho/2 |x-z|^2  subject to: all copies equal, *)
(* and (formation) the last deg+1 coefficients equal, which is what a centre  *)
(* that stands still at the end of the horizon amounts to.  The minimiser is  *)
(* the mean of x + l/rho over everything that has to be equal.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* rounded division, divisor > 0
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
SumOver(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)

\* indices tied together with index k of a vector of nd splines of n coefficients, degree deg
Tied(k, n, deg, tail) ==
    LET d == (k-1) \div n          \* which spline
        c == (k-1) % n             \* which coefficient, from zero
    IN IF tail /\ c >= n - deg - 1
       THEN [m \in 1..(deg+1) |-> d*n + n - deg - 1 + m]
       ELSE <<k>>
\* xs, ls: the copies (own first): x and multiplier vectors.  rho = rn/rd
Consensus(xs, ls, n, deg, tail, rn, rd) ==
    [k \in 1..Len(xs[1]) |->
        LET idx == Tied(k, n, deg, tail)
            tot == SumOver([m \in 1..Len(idx) |->
                       SumOver([c \in 1..Len(xs) |-> rn*xs[c][idx[m]] + rd*ls[c][idx[m]]])])
        IN RDiv(tot, rn*Len(idx)*Len(xs))]
\* multipliers
Ascend(l, x, z, rn, rd) == [k \in 1..Len(l) |-> l[k] + RDiv(rn*(x[k] - z[k]), rd)]
Norm2(a, b) == SumOver([k \in 1..Len(a) |-> (a[k]-b[k])*(a[k]-b[k])])
Norm1(a, b) == SumOver([k \in 1..Len(a) |-> IF a[k] < b[k] THEN b[k]-a[k] ELSE a[k]-b[k]])
=============================================================================
