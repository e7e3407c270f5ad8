-------------------------------- MODULE Shapes --------------------------------
(* Shapes in the plane and in space, from the parameters a user gives.        *)
(* lengths in 1e-4 m, angles in 1e-6 rad, directions in 1e-4.                 *)
(* A shape is the set of points within Radius of the convex hull of Vertices. *)
(* sh: [kind, a, b, c (sizes), n (corners), ang (sequence of angles)]         *)
EXTENDS Vehicles
Sc(x, f) == RDiv(x * f, 10000)                     \* length times a factor in 1e-4
Rot2(v, th) == LET c == Cos(th) s == Sin(th)
               IN << Sc(v[1], c) - Sc(v[2], s), Sc(v[1], s) + Sc(v[2], c) >>
\* roll about x first, then pitch about y, then yaw about z
Rot3(v, rpy) == LET cr == Cos(rpy[1]) sr == Sin(rpy[1]) cp == Cos(rpy[2]) sp == Sin(rpy[2]) cy == Cos(rpy[3]) sy == Sin(rpy[3])
                    v1 == << v[1], Sc(v[2], cr) - Sc(v[3], sr), Sc(v[2], sr) + Sc(v[3], cr) >>
                    v2 == << Sc(v1[1], cp) + Sc(v1[3], sp), v1[2], Sc(v1[3], cp) - Sc(v1[1], sp) >>
                IN << Sc(v2[1], cy) - Sc(v2[2], sy), Sc(v2[1], sy) + Sc(v2[2], cy), v2[3] >>
\* corners of a regular polygon whose first side (k = 0) looks in the direction of +y; clockwise
Ngon(r, n) == [k \in 1..n |-> LET al == 1570796 - RDiv((2*k - 1) * 3141593, n) IN << Sc(r, Cos(al)), Sc(r, Sin(al)) >>]
Half(x) == RDiv(x, 2)
Box2(w, h) == << <<Half(w), Half(h)>>, <<Half(w), -Half(h)>>, <<-Half(w), -Half(h)>>, <<-Half(w), Half(h)>> >>
Two(poly, h) == [k \in 1..(2*Len(poly)) |-> IF k <= Len(poly) THEN Append(poly[k], -Half(h)) ELSE Append(poly[k - Len(poly)], Half(h))]
Local(sh) == CASE sh.kind \in {"circle", "cylinder"} -> << <<0, 0>> >>
               [] sh.kind = "rect" -> Box2(sh.a, sh.b)
               [] sh.kind = "reg" -> Ngon(sh.a, sh.n)
               [] sh.kind = "beam" -> << <<Half(sh.a), 0>>, <<-Half(sh.a), 0>> >>
               [] sh.kind = "sphere" -> << <<0, 0, 0>> >>
               [] sh.kind = "cuboid" -> Two(Box2(sh.a, sh.b), sh.c)
               [] sh.kind = "prisma" -> Two(Ngon(sh.a, sh.n), sh.c)
               [] sh.kind = "plate" -> [k \in 1..4 |-> Append(Box2(sh.a, sh.b)[k], 0)]
Skin == 10                                          \* polygons carry a skin of a millimetre
Radius(sh) == CASE sh.kind \in {"circle", "cylinder", "sphere"} -> sh.a
                [] sh.kind = "beam" -> Half(sh.b)
                [] sh.kind = "plate" -> Half(sh.c)
                [] OTHER -> Skin
\* the corners as the shape lies there by itself
Vertices(sh) == LET L == Local(sh) IN
    [k \in 1..Len(L) |-> IF Len(L[k]) = 2 THEN Rot2(L[k], sh.ang[1]) ELSE Rot3(L[k], sh.ang)]
\* ... and placed: th is the heading (0 for shapes that do not turn along)
Placed(vs, p, th) == [k \in 1..Len(vs) |->
    IF Len(vs[k]) = 3 THEN << p[1] + vs[k][1], p[2] + vs[k][2], p[3] + vs[k][3] >>
    ELSE LET w == IF th = 0 THEN vs[k] ELSE Rot2(vs[k], th) IN
         IF Len(p) = 3 THEN << p[1] + w[1], p[2] + w[2], p[3] >> ELSE << p[1] + w[1], p[2] + w[2] >>]
RECURSIVE DotK(_, _, _)
DotK(n, v, k) == IF k > Len(n) THEN 0 ELSE Sc(v[k], n[k]) + DotK(n, v, k+1)
Dot(n, v) == DotK(n, v, 1)
RECURSIVE Unit2(_, _)
Unit2(n, k) == IF k > Len(n) THEN 0 ELSE n[k]*n[k] + Unit2(n, k+1)
IsUnit(n) == Unit2(n, 1) \in 99900000..100100000
RECURSIVE Top(_, _, _), Bot(_, _, _)
Top(vs, n, k) == IF k = 1 THEN Dot(n, vs[1]) ELSE LET m == Top(vs, n, k-1) d == Dot(n, vs[k]) IN IF d > m THEN d ELSE m
Bot(vs, n, k) == IF k = 1 THEN Dot(n, vs[1]) ELSE LET m == Bot(vs, n, k-1) d == Dot(n, vs[k]) IN IF d < m THEN d ELSE m
\* free space between two placed shapes seen along n: at least this far apart (negative: no proof of distance)
Gap(va, ra, vb, rb, n) == Bot(vb, n, Len(vb)) - Top(va, n, Len(va)) - ra - rb
\* inside a convex room with corners w (clockwise) of which side k is len[k] long
Inside(vs, ra, w, len, tol) ==
    \A k \in 1..Len(w) : LET p == w[k] q == w[(k % Len(w)) + 1]
                             nx == RDiv((p[2] - q[2]) * 10000, len[k])       \* outward normal
                             ny == RDiv((q[1] - p[1]) * 10000, len[k])
                         IN Top([j \in 1..Len(vs) |-> << vs[j][1] - p[1], vs[j][2] - p[2] >>], <<nx, ny>>, Len(vs)) + ra <= tol
=============================================================================
