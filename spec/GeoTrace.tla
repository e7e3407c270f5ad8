------------------------------ MODULE GeoTrace ------------------------------
(* Judges what the real geometry says about shapes.                           *)
EXTENDS Verdict, Geo
S == INSTANCE Shapes
\* said must be TRUE for -1 and FALSE for 1; 0 (touching) is a matter of taste
Says(said, q, clause, info) == Need(q = -1 => said, clause \o ".missed", info) \o Need(q = 1 => ~said, clause \o ".imagined", info)
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
\* shapes: lengths in 1e-4, directions in 1e-4
JudgeShape(r) == LET vs == S!Vertices(r.sh) rad == IF r.sh.kind \in {"circle", "cylinder", "sphere", "plate", "beam"} THEN S!Radius(r.sh) ELSE 0
                     nd == Len(vs[1]) IN
   (IF r.sh.kind \in {"beam", "plate"} THEN <<>> ELSE
      Cat([k \in 1..nd |-> Need(Close(r.box[k][1], MinOf({vs[j][k] : j \in 1..Len(vs)}) - rad, 6) /\ Close(r.box[k][2], MaxOf({vs[j][k] : j \in 1..Len(vs)}) + rad, 6),
             "limits", <<r.sh.kind, k, r.box[k], vs>>)]))
   \* half planes: unit normals, every corner behind each, two corners on each, at the place the shape is at
   \o Cat([h \in 1..Len(r.hyp) |-> LET a == r.hyp[h].a b == r.hyp[h].b
                                       g == [j \in 1..Len(vs) |-> S!Dot(a, <<vs[j][1] + r.pos[1], vs[j][2] + r.pos[2]>>) - b] IN
        Need(S!IsUnit(a), "plane.unit", a) \o Need(\A j \in 1..Len(vs) : g[j] <= 25, "plane.outside", <<r.sh.kind, h, g>>)
        \o Need(Cardinality({j \in 1..Len(vs) : g[j] >= -25}) >= 2, "plane.off", <<r.sh.kind, h, g>>)])
   \o Need(r.hyp = <<>> \/ Len(r.hyp) = Len(vs), "plane.count", <<Len(r.hyp), Len(vs)>>)
   \* drawn where it is: corners turned and moved
   \o Cat([k \in 1..Len(r.drawn) |-> LET w == IF Len(vs[1]) = 2 THEN S!Placed(vs, <<r.pose[1], r.pose[2]>>, r.pose[3])
                                              ELSE [j \in 1..Len(vs) |-> LET v == S!Rot3(vs[j], <<r.pose[4], r.pose[5], r.pose[6]>>) IN <<v[1] + r.pose[1], v[2] + r.pose[2], v[3] + r.pose[3]>>] IN
        Need(\E j \in 1..Len(w) : \A c \in 1..Len(w[j]) : Close(r.drawn[k][c], w[j][c], 12), "drawn", <<r.sh.kind, r.drawn[k], w>>)])
   \o Need(r.drawn = <<>> \/ Cardinality({r.drawn[k] : k \in 1..Len(r.drawn)}) = Len(vs), "drawn.count", <<r.drawn>>)
JudgePoly(r) == LET P == Moved(r.P, r.pos) IN Says(r.said, Side(r.p, P), "inside", <<r.p, P>>)
JudgeDisc(r) == LET P == Moved(r.P, r.pos) q == DiscPoly(r.p, r.r, P) IN
   Says(r.said1, q, "disc", <<r.p, r.r, P>>) \o Says(r.said2, q, "disc.turned", <<r.p, r.r, P>>)
   \o Says(r.side, IF -1 \in SideR(r.p, P, r.r) THEN -1 ELSE IF 0 \in SideR(r.p, P, r.r) THEN 0 ELSE 1, "side", <<r.p, r.r, P>>)
JudgeMoving(r) == LET vx == Abs(r.v[1]) vy == Abs(r.v[2]) D == (IF vx = 0 THEN 1 ELSE vx)*(IF vy = 0 THEN 1 ELSE vy)
                      \* positions in tenths of a unit so that times are in tenths of a second
                      a == Slab(10*r.p[1], r.v[1], 10*r.b[1], 10*r.b[3], D, r.H) b == Slab(10*r.p[2], r.v[2], 10*r.b[2], 10*r.b[4], D, r.H)
                      f == Mx(a[1], b[1]) u == Mn(a[2], b[2]) IN
   Need(u - f > 5*D + 2 => r.said, "moving.missed", <<r.p, r.v, r.b, r.H, f, u, D>>)
   \o Need(u < f - 2 => ~r.said, "moving.imagined", <<r.p, r.v, r.b, r.H, f, u, D>>)
JudgeIn(r) == LET b == <<r.b[1] + r.d, r.b[2] + r.d, r.b[3] - r.d, r.b[4] - r.d>> IN
   Says(r.said, InBox(r.p, b), "rectangle", <<r.p, b>>)
   \o Says(r.x, InBox(<<r.p[1], 0>>, <<b[1], -1, b[3], 1>>), "rectangle.x", <<r.p, b>>)
   \o Says(r.y, InBox(<<0, r.p[2]>>, <<-1, b[2], 1, b[4]>>), "rectangle.y", <<r.p, b>>)
JudgeBoxes(r) == LET q == BoxBox(r.a, r.b) IN
   Says(r.said1, q, "boxes", <<r.a, r.b>>) \o Says(r.said2, q, "boxes.turned", <<r.a, r.b>>)
   \o (IF q = -1 THEN Need(\A k \in 1..2 : Close(2*r.mid[k], 100*(Mx(r.a[k], r.b[k]) + Mn(r.a[k+2], r.b[k+2])), 2), "boxes.middle", <<r.a, r.b, r.mid>>) ELSE <<>>)
\* where two lines meet: at, in 1e-2
JudgeLines(r) == LET u == Sub(r.b, r.a) v == Sub(r.d, r.c) den == Cross(u, v) t == Cross(Sub(r.c, r.a), v) IN
   Says(r.said, SegSeg(r.a, r.b, r.c, r.d), "segments", <<r.a, r.b, r.c, r.d>>)
   \o Need((den = 0) = (r.at = <<>>), "lines.parallel", <<r.a, r.b, r.c, r.d, r.at>>)
   \o (IF den = 0 \/ r.at = <<>> THEN <<>> ELSE Cat([k \in 1..2 |-> Need(Abs((r.at[k] - 100*r.a[k])*den - 100*t*u[k]) <= 2*Abs(den), "lines.point", <<r.a, r.b, r.c, r.d, r.at>>)]))
\* rings: points on the inner and outer edge, in 1e-3, in drawing order; dir 1 is counterclockwise
JudgeRing(r) == LET n == Len(r.inner) IN
   Cat([k \in 1..n |-> Need(Close(Dot2(r.inner[k], r.inner[k]), r.rin*r.rin, 3*r.rin + 9), "ring.inner", r.inner[k]) \o
                        Need(Close(Dot2(r.outer[k], r.outer[k]), r.rout*r.rout, 3*r.rout + 9), "ring.outer", r.outer[k])])
   \o Cat([k \in 1..(n-1) |-> Need(Cross(r.inner[k], r.inner[k+1])*r.dir > 0, "ring.turn", <<k, r.inner[k], r.inner[k+1], r.dir>>)])
   \o Need(Cardinality({k \in 2..(n-1) : Cross(r.start, r.inner[k])*r.dir < 0 /\ Cross(r.start, r.inner[k+1])*r.dir > 0 /\ Dot2(r.start, r.inner[k]) > 0}) = 0, "ring.over", <<r.start, r.end, r.dir>>)
   \o Need(Abs(Cross(r.start, r.inner[1])) <= 6*r.rin /\ Dot2(r.start, r.inner[1]) > 0, "ring.start", <<r.start, r.inner[1]>>)
   \o Need(Abs(Cross(r.end, r.inner[n])) <= 6*r.rin /\ Dot2(r.end, r.inner[n]) > 0, "ring.end", <<r.end, r.inner[n]>>)
   \* limits: contain it all, and are reached (full sampling is finer than ours)
   \o Cat([c \in 1..2 |-> Need(\A k \in 1..n : r.box[c][1] <= r.outer[k][c] + 2 /\ r.outer[k][c] <= r.box[c][2] + 2, "ring.limits", <<c, r.box[c]>>)])
\* bouncing: velocity before and after, what is hit
JudgeBounce(r) == 
   Need(Abs(r.after[1]) = Abs(r.before[1]) /\ Abs(r.after[2]) = Abs(r.before[2]), "bounce.speed", <<r.before, r.after>>)
   \o (IF r.what = "free" THEN Need(r.after = r.before, "bounce.imagined", <<r.before, r.after>>)
       ELSE LET k == r.axis IN
         \* it now moves away from the wall it was moving into
         Need(r.after[k] = -r.before[k], "bounce.through", <<r.what, r.before, r.after>>)
         \o (IF r.before[3 - k] = 0 THEN <<>> ELSE Need(r.after[3 - k] = r.before[3 - k], "bounce.glance", <<r.what, r.before, r.after>>)))
\* a history of bouncing: positions 1e-6, velocities 1e-4, dt in 1e-2: velocity changes at walls only, and there it turns back
JudgeRun(r) == LET n == Len(r.pos)
       out(k, c) == IF r.pos[k][c] < r.room[c][1] - 5 THEN -1 ELSE IF r.pos[k][c] > r.room[c][2] + 5 THEN 1 ELSE 0
       unsure(k) == \E c \in 1..2 : \E w \in 1..2 : Close(r.pos[k][c], r.room[c][w], 5)
       \* near a corner it may take the one wall for the other first
       corner(k) == \A c \in 1..2 : r.pos[k][c] < r.room[c][1] + 155000 \/ r.pos[k][c] > r.room[c][2] - 155000
       into(k, c) == out(k, c)*r.vel[k][c] > 0 IN
   Cat([k \in 1..(n-1) |->
      Need(\A c \in 1..2 : Abs(r.vel[k+1][c]) = Abs(r.vel[k][c]), "run.speed", <<k, r.vel[k], r.vel[k+1]>>)
      \o Need(\A c \in 1..2 : Close(r.pos[k+1][c] - r.pos[k][c], r.vel[k+1][c]*r.dt, 5), "run.step", <<k, r.pos[k], r.pos[k+1], r.vel[k+1]>>)
      \o Need(\A c \in 1..2 : r.pos[k][c] >= r.room[c][1] - 150000 /\ r.pos[k][c] <= r.room[c][2] + 150000, "run.escaped", <<k, r.room, r.pos[k]>>)
      \o (IF unsure(k) THEN <<>> ELSE
            Need((\A c \in 1..2 : out(k, c) = 0) => r.vel[k+1] = r.vel[k], "run.imagined", <<k, r.room, r.pos[k], r.vel[k], r.vel[k+1]>>)
            \o Need((\E c \in 1..2 : into(k, c)) /\ ~corner(k) => \E c \in 1..2 : into(k, c) /\ r.vel[k+1][c] = -r.vel[k][c], "run.through", <<k, r.room, r.pos[k], r.vel[k], r.vel[k+1]>>)
            \* at the latest in the second step it is on its way back
            \o Need(k + 2 > n \/ ~\E c \in 1..2 : into(k, c) /\ r.vel[k+1][c] = r.vel[k][c] /\ r.vel[k+2][c] = r.vel[k][c], "run.on", <<k, r.room, r.pos[k], r.vel[k]>>))])
Judge(r) == CASE r.type = "run" -> JudgeRun(r) [] r.type = "shape" -> JudgeShape(r) [] r.type = "poly" -> JudgePoly(r) [] r.type = "disc" -> JudgeDisc(r)
     [] r.type = "discs" -> Says(r.said, DiscDisc(r.p, r.r, r.q, r.s), "discs", <<r.p, r.r, r.q, r.s>>)
     [] r.type = "moving" -> JudgeMoving(r) [] r.type = "in" -> JudgeIn(r) [] r.type = "boxes" -> JudgeBoxes(r)
     [] r.type = "lines" -> JudgeLines(r) [] r.type = "ring" -> JudgeRing(r) [] r.type = "bounce" -> JudgeBounce(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
