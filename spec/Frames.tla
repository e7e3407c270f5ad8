------------------------------- MODULE Frames -------------------------------
(* Boxes <<x1, y1, x2, y2>>, points <<x, y>>, and what it takes for a box to *)
(* be a frame: a part of the room without stationary obstacles in which a    *)
(* vehicle of a given size can go from its start to its end.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* the boxes have at least a point in common, within tol (negative: overlap by more than that)
Touch(b, c, tol) == b[1] <= c[3] + tol /\ c[1] <= b[3] + tol /\ b[2] <= c[4] + tol /\ c[2] <= b[4] + tol
Within(b, c, tol) == b[1] >= c[1] - tol /\ b[2] >= c[2] - tol /\ b[3] <= c[3] + tol /\ b[4] <= c[4] + tol
\* p is in the box, d from each border
Clear(p, b, d) == p[1] - b[1] >= d /\ b[3] - p[1] >= d /\ p[2] - b[2] >= d /\ b[4] - p[2] >= d
Less(a, b) == IF a < b THEN a ELSE b
More(a, b) == IF a < b THEN b ELSE a
\* the smallest box that has p and q at distance m from its borders
Hull(p, q, m) == <<Less(p[1], q[1]) - m, Less(p[2], q[2]) - m, More(p[1], q[1]) + m, More(p[2], q[2]) + m>>
Join(b, c) == <<Less(b[1], c[1]), Less(b[2], c[2]), More(b[3], c[3]), More(b[4], c[4])>>
\* grown by d at one of its sides: right, left, up, down (the order of the code)
Grow(b, side, d) == CASE side = 1 -> [b EXCEPT ![3] = @ + d] [] side = 2 -> [b EXCEPT ![1] = @ - d]
                      [] side = 3 -> [b EXCEPT ![4] = @ + d] [] side = 4 -> [b EXCEPT ![2] = @ - d]
Shift(b, v) == <<b[1] + v[1], b[2] + v[2], b[3] + v[1], b[4] + v[2]>>
Free(b, boxes, tol) == \A o \in boxes : ~Touch(b, o, tol)
=============================================================================
