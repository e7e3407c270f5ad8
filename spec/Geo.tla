-------------------------------- MODULE Geo --------------------------------
(* Plane geometry on whole numbers, exact.  Polygons are convex, clockwise.   *)
EXTENDS Integers, Sequences
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Cross(u, v) == u[1]*v[2] - u[2]*v[1]
Dot2(u, v) == u[1]*v[1] + u[2]*v[2]
Nx(P, k) == P[(k % Len(P)) + 1]
Clockwise(P) == \A k \in 1..Len(P) : Cross(Sub(Nx(P, k), P[k]), Sub(Nx(P, (k % Len(P)) + 1), Nx(P, k))) < 0
Moved(P, d) == [k \in 1..Len(P) |-> Add(P[k], d)]
\* -1 inside, 0 on the border, 1 outside
Side(p, P) == LET c == [k \in 1..Len(P) |-> Cross(Sub(Nx(P, k), P[k]), Sub(p, P[k]))] IN
   IF \E k \in 1..Len(P) : c[k] > 0 THEN 1 ELSE IF \E k \in 1..Len(P) : c[k] = 0 THEN 0 ELSE -1
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* how the distance from p to the side a-b compares with r: -1 less, 0 equal, 1 more
SegR(p, a, b, r) == LET e == Sub(b, a) u == Sub(p, a) w == Sub(p, b) t == Dot2(u, e) IN
   IF t <= 0 THEN Sgn(Dot2(u, u) - r*r)
   ELSE IF t >= Dot2(e, e) THEN Sgn(Dot2(w, w) - r*r)
   ELSE Sgn(Cross(e, u)*Cross(e, u) - r*r*Dot2(e, e))
SideR(p, P, r) == {SegR(p, P[k], Nx(P, k), r) : k \in 1..Len(P)}
\* disc with polygon: -1 overlap, 0 touch, 1 apart
DiscPoly(p, r, P) == IF Side(p, P) = -1 \/ -1 \in SideR(p, P, r) THEN -1 ELSE IF Side(p, P) = 0 \/ 0 \in SideR(p, P, r) THEN 0 ELSE 1
DiscDisc(p, r, q, s) == Sgn(Dot2(Sub(p, q), Sub(p, q)) - (r+s)*(r+s))
\* boxes [x0, y0, x1, y1]
BoxBox(a, b) == LET g == {a[1]-b[3], b[1]-a[3], a[2]-b[4], b[2]-a[4]} IN
   IF \E x \in g : x > 0 THEN 1 ELSE IF 0 \in g THEN 0 ELSE -1
InBox(p, b) == BoxBox(<<p[1], p[2], p[1], p[2]>>, b)
\* two segments: -1 cross, 1 do not meet, 0 anything in between (touching, in line)
SegSeg(a, b, c, d) == LET o1 == Sgn(Cross(Sub(b, a), Sub(c, a))) o2 == Sgn(Cross(Sub(b, a), Sub(d, a)))
                          o3 == Sgn(Cross(Sub(d, c), Sub(a, c))) o4 == Sgn(Cross(Sub(d, c), Sub(b, c))) IN
   IF o1*o2 > 0 \/ o3*o4 > 0 THEN 1 ELSE IF o1*o2 < 0 /\ o3*o4 < 0 THEN -1 ELSE 0
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* time (times D) during which x + v*t is in [lo, hi], as <<from, till>> within [0, H]; D a multiple of |v|
Slab(x, v, lo, hi, D, H) == IF v = 0 THEN (IF lo <= x /\ x <= hi THEN <<0, D*H>> ELSE <<1, 0>>)
   ELSE LET a == ((lo - x)*D) \div v b == ((hi - x)*D) \div v IN <<Mx(0, Mn(a, b)), Mn(D*H, Mx(a, b))>>
=============================================================================
