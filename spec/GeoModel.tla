------------------------------ MODULE GeoModel ------------------------------
(* The geometry on itself: what it calls apart has no point in common, what   *)
(* it calls overlapping stays so when both move along, and order is no matter. *)
EXTENDS Geo
CONSTANTS M, R
VARIABLES P, p, r, d
vars == <<P, p, r, d>>
Pt == (0..M) \X (0..M)
Tri == {t \in {<<a, b, c>> : a \in Pt, b \in Pt, c \in Pt} : Cross(Sub(t[2], t[1]), Sub(t[3], t[2])) < 0}
Init == P \in Tri /\ p \in ((-1)..(M+1)) \X ((-1)..(M+1)) /\ r \in 1..R /\ d \in {<<0, 0>>, <<3, -2>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Q == DiscPoly(p, r, P)
Common == \E x \in ((-1)..(M+1)) \X ((-1)..(M+1)) : Side(x, P) <= 0 /\ Dot2(Sub(x, p), Sub(x, p)) <= r*r
Apart == Q = 1 => ~Common
Along == DiscPoly(Add(p, d), r, Moved(P, d)) = Q
Larger == Q <= 0 => DiscPoly(p, r + 1, P) = -1
Turn == DiscPoly(<<-p[2], p[1]>>, r, [k \in 1..Len(P) |-> <<-P[k][2], P[k][1]>>]) = Q
Any == Q = DiscPoly(p, r, <<P[2], P[3], P[1]>>)
Segs == /\ SegSeg(P[1], P[2], p, P[3]) = SegSeg(p, P[3], P[1], P[2])
        /\ SegSeg(P[1], P[2], p, P[3]) = SegSeg(P[2], P[1], p, P[3])
        /\ (Side(p, P) = -1 => SegSeg(P[1], P[2], p, P[3]) = 1)
=============================================================================
