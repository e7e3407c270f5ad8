----------------------------- MODULE GCodeTrace -----------------------------
(* Judges the real reader, the rooms made of what it read, and the tool that  *)
(* works its way through them.  Lengths in 1e-3.                              *)
EXTENDS Verdict, GCode
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Cross(u, v) == u[1]*v[2] - u[2]*v[1]
Dot(u, v) == u[1]*v[1] + u[2]*v[2]
Near(p, q, tol) == \A k \in 1..Len(q) : Close(p[k], q[k], tol)
Dir(b) == IF b.g = "G03" THEN 1 ELSE -1
\* radius in 1e-3, given: its square must fit
IsRadius(R, u, tol) == Close(Dot(u, u), R*R, 2*tol*R + tol*tol + 2)
\* ---------------------------------------------------------------- reading
JudgeBlock(b, k, r) == \* b: meant; r: read
   Need(r.g = b.g, "block.type", <<k, b, r.g>>) \o Need(Near(r.a, b.a, 1), "block.start", <<k, b, r.a>>) \o Need(Near(r.b, b.b, 1), "block.end", <<k, b, r.b>>)
   \o (IF b.g \notin Arcs THEN Need(Len(r.pts) = 2 /\ Near(r.pts[1], b.a, 1) /\ Near(r.pts[Len(r.pts)], b.b, 1), "line.points", <<k, b, r.pts>>)
       ELSE Need(Len(r.c) >= 2 /\ Near(<<r.c[1], r.c[2]>>, b.c, 1), "arc.centre", <<k, b, r.c>>)
         \o Need(IsRadius(r.R, Sub(b.a, b.c), 3), "arc.radius", <<k, b, r.R>>)
         \o LET n == Len(r.pts) q == [j \in 1..n |-> Sub(r.pts[j], b.c)] IN
            Need(n >= 2 /\ Near(r.pts[1], b.a, 5) /\ Near(r.pts[n], b.b, 5), "arc.ends", <<k, b, r.pts[1], r.pts[n]>>)
            \o Need(\A j \in 1..n : IsRadius(r.R, q[j], 4), "arc.round", <<k, b>>)
            \o Need(\A j \in 1..n : Close(r.pts[j][3], b.a[3], 1), "arc.height", <<k, b>>)
            \o (IF n < 2 THEN <<>> ELSE
               Need(\A j \in 1..(n-1) : Cross(q[j], q[j+1])*Dir(b) > 0 /\ Dot(q[j], q[j+1]) > 0, "arc.turn", <<k, b>>)
               \o Need(~\E j \in 2..(n-2) : Cross(q[1], q[j])*Dir(b) < 0 /\ Cross(q[1], q[j+1])*Dir(b) >= 0 /\ Dot(q[1], q[j]) > 0, "arc.over", <<k, b>>)))
JudgeProg(r) == LET path == Interp(r.lines).path IN
   Need(Len(path) = Len(r.blocks), "count", <<Len(path), Len(r.blocks)>>)
   \o (IF Len(path) # Len(r.blocks) THEN <<>> ELSE
      Cat([k \in 1..Len(path) |-> JudgeBlock(path[k], k, r.blocks[k])])
      \o Need([k \in 1..Len(r.parts) |-> Len(r.parts[k])] = [k \in 1..Len(Parts(path)) |-> Len(Parts(path)[k])] /\ Flat(r.parts) = [k \in 1..Len(path) |-> k],
             "division", <<r.parts, path>>)
      \o (IF path = <<>> THEN <<>> ELSE
          Need(Len(r.conn) = Len(path) + 2 /\ \A k \in 1..Len(path) : Near(r.conn[k], path[k].a, 1), "connections", r.conn)
          \o Need(Len(r.conn) < Len(path) + 1 \/ Near(r.conn[Len(path)+1], path[Len(path)].b, 1), "connections.last", r.conn)))
\* shifted by minus d, then scaled by f (in 1e-1)
Conv(v, d, f) == ((v - d)*f) \div 10
JudgeConv(r) == LET path == Interp(r.lines).path IN
   Need(Len(path) = Len(r.blocks), "convert.count", <<Len(path), Len(r.blocks)>>)
   \o (IF Len(path) # Len(r.blocks) THEN <<>> ELSE Cat([k \in 1..Len(path) |-> LET b == path[k] c == r.blocks[k] IN
       Need(c.g = b.g /\ \A e \in 1..2 : Close(c.a[e], Conv(b.a[e], r.d[e], r.f), 2) /\ Close(c.b[e], Conv(b.b[e], r.d[e], r.f), 2), "convert.block", <<k, b, c, r.d, r.f>>)
       \o (IF b.g \in Arcs THEN Need(\A e \in 1..2 : Close(c.c[e], Conv(b.c[e], r.d[e], r.f), 3), "convert.centre", <<k, b, c, r.d, r.f>>) ELSE <<>>)]))
\* ------------------------------------------------------------------ rooms
\* which rooms belong to which block: o.var and length decide on three, o.split and angle on two
Long(b, len) == LET e == Sub(b.b, b.a) IN Dot(e, e) >= len*len
\* turning from u to v in direction d: more than 135 degrees?
Wide(u, v, d) == LET c == Cross(u, v)*d s == Dot(u, v) IN c < 0 \/ (s < 0 /\ c < -s)
\* too close to 135 degrees to tell (the extension by the tolerance counts)
Grey(b, tol) == LET u == Sub(b.a, b.c) v == Sub(b.b, b.c) c == Cross(u, v)*Dir(b) s == Dot(u, v) IN
    ~Wide(u, v, Dir(b)) /\ s < 0 /\ (c + s)*10 <= 40*tol*(Abs(u[1]) + Abs(u[2]))
Halves(b, o) == IF b.g \in Arcs /\ o.split /\ Wide(Sub(b.a, b.c), Sub(b.b, b.c), Dir(b)) THEN 2 ELSE 1
Thirds(b, o) == IF ~o.var THEN 1 ELSE IF b.g \in Arcs THEN 3 ELSE IF Long(b, o.len) THEN 3 ELSE 1
Count(b, o) == Halves(b, o)*Thirds(b, o)
RECURSIVE From(_, _, _)
From(path, o, k) == IF k = 1 THEN 1 ELSE From(path, o, k-1) + Count(path[k-1], o)
\* the tolerance of the j-th room of a block
TolOf(b, o, j) == IF Thirds(b, o) = 3 /\ (j % 3) = 2 THEN o.small ELSE o.tol
\* a corner v of the rectangle around s-e with tolerance t: t to one side, and t beyond one end
Corner(v, s, e, len, t) == LET d == Sub(e, s) w == Sub(v, s) along == Dot(d, w) across == Cross(d, w) IN
   Close(Abs(across), t*len, 3*len + 2*t) /\ (Close(along, -t*len, 3*len + 2*t) \/ Close(along - len*len, t*len, 6*len + 2*t))
Shape(m, b, t) == IF m.kind = "rect" THEN
      LET e == Sub(m.b, m.a) IN
      Need(b.g \notin Arcs, "room.kind", b) \o Need(IsRadius(m.len, e, 2), "room.length", <<m.a, m.b, m.len>>)
      \o Need(Len(m.v) = 4 /\ \A j \in 1..4 : Corner(m.v[j], m.a, m.b, m.len, t), "room.corners", <<m.a, m.b, m.v, t>>)
      \o Need(Len(m.v) = 4 /\ Cardinality({m.v[j] : j \in 1..4}) = 4, "room.corner.twice", m.v)
   ELSE LET c == b.c u == Sub(m.a, c) v == Sub(m.b, c) d == Dir(b) IN
      Need(b.g \in Arcs, "room.kind", b)
      \o Need(Near(m.c, c, 1), "room.centre", <<m.c, c>>)
      \o Need(IsRadius(m.rin + t, Sub(b.a, c), 4) /\ IsRadius(m.rout - t, Sub(b.a, c), 4), "room.radii", <<m.rin, m.rout, t, b>>)
      \o Need(m.dir = d, "room.turn", <<m.dir, b>>)
      \* the ring begins before, by at most the tolerance or so, and ends behind
      \o LET back == Cross(m.s, u)*d ahead == Cross(v, m.e)*d R == (m.rin + m.rout) \div 2 IN
         Need(Dot(m.s, u) > 0 /\ back >= -4*R /\ back <= (t + t \div 5 + 6)*R, "room.ring.start", <<m.s, u, back>>)
         \o Need(Dot(m.e, v) > 0 /\ ahead >= -4*R /\ ahead <= (t + t \div 5 + 6)*R, "room.ring.end", <<m.e, v, ahead>>)
\* how far along its block a place is: arcs by comparing directions, lines by dot product
Later(p, q, b) == IF b.g \in Arcs THEN LET u == Sub(p, b.c) v == Sub(q, b.c) IN ~(Cross(u, v)*Dir(b) < -10*(Abs(u[1]) + Abs(u[2])) /\ Dot(u, v) > 0)
                  ELSE Dot(Sub(b.b, b.a), Sub(q, p)) >= -4*(Abs(b.b[1] - b.a[1]) + Abs(b.b[2] - b.a[2]))
JudgeRooms(r) == LET path == Interp(r.lines).path o == r.o
                     total == IF path = <<>> THEN 0 ELSE From(path, o, Len(path)) + Count(path[Len(path)], o) - 1 IN
   IF \E k \in 1..Len(path) : path[k].g \in Arcs /\ o.split /\ Grey(path[k], o.tol) THEN <<>> ELSE
   Need(Len(r.rooms) = total, "rooms.count", <<Len(r.rooms), total>>)
   \o (IF Len(r.rooms) # total THEN <<>> ELSE
      Cat([k \in 1..total |-> Need(r.rooms[k].nr = k - 1, "rooms.number", <<k, r.rooms[k].nr>>)])
      \o Cat([k \in 1..Len(path) |-> LET b == path[k] f == From(path, o, k) n == Count(b, o) m == [j \in 1..n |-> r.rooms[f+j-1]] IN
          Need(Near(m[1].a, b.a, 2), "room.start", <<k, b, m[1].a>>) \o Need(Near(m[n].b, b.b, 2), "room.end", <<k, b, m[n].b>>)
          \o Cat([j \in 1..n |-> Shape(m[j], b, TolOf(b, o, j)) \o Need((n = 1 /\ b.g \in Arcs) \/ Later(m[j].a, m[j].b, b), "room.backwards", <<k, j, b, m[j]>>)])
          \* no gap: the next begins where this one ends, or, for the two halves of a circle, before
          \o Cat([j \in 1..(n-1) |->
              IF Halves(b, o) = 2 /\ j = Thirds(b, o) THEN
                   LET u == Sub(m[j+1].a, b.c) v == Sub(m[j].b, b.c) R == (m[j].rin + m[j].rout) \div 2 IN
                   Need(Dot(u, v) > 0 /\ Cross(u, v)*Dir(b) >= -4*R /\ Cross(u, v) <= 3*o.tol*R, "room.halves", <<k, m[j].b, m[j+1].a>>)
              ELSE Need(Near(m[j].b, m[j+1].a, 2), "room.gap", <<k, j, m[j].b, m[j+1].a>>)])])
      \* split lengths: first and last part take their share
      \o Cat([k \in 1..Len(path) |-> LET b == path[k] f == From(path, o, k) IN
            IF Count(b, o) = 3 /\ b.g \notin Arcs THEN
              Need(\A e \in 1..2 : Close((r.rooms[f].b[e] - b.a[e])*100, (b.b[e] - b.a[e])*o.share, 300) /\ Close((b.b[e] - r.rooms[f+2].a[e])*100, (b.b[e] - b.a[e])*o.share, 300),
                   "room.share", <<k, b, r.rooms[f].b, r.rooms[f+2].a>>) ELSE <<>>]))
\* -------------------------------------------------------------- the tool
Room(r, k) == r.rooms[k]
InRoom(p, m, b, t) == IF m.kind = "rect" THEN Abs(Cross(Sub(m.b, m.a), Sub(p, m.a))) <= (t + 2)*m.len + 2*t
                      ELSE LET d == Dot(Sub(p, b.c), Sub(p, b.c)) IN d <= (m.rout + 2)*(m.rout + 2) /\ d >= (m.rin - 2)*(m.rin - 2)
BlockOf(path, o, k) == CHOOSE b \in 1..Len(path) : From(path, o, b) <= k /\ k < From(path, o, b) + Count(path[b], o)
InOwn(r, path, m, p) == LET b == BlockOf(path, r.o, m) IN InRoom(p, Room(r, m), path[b], TolOf(path[b], r.o, m - From(path, r.o, b) + 1))
Joins(r, u, v, d) == Need(Near(v.x, u.x, 2), "run.jump", <<d, u.x, v.x>>)
   \o Need(Near(v.v, u.v, 2 + r.vmax \div 100), "run.jerk", <<d, u.v, v.v>>)
   \o Need(Near(v.acc, u.acc, 5 + r.amax \div 50), "run.acc", <<d, u.acc, v.acc>>)
\* least and largest value per axis
Within(got, lim) == \A e \in 1..3 : got[e][1] >= lim[e][1] - Abs(lim[e][1]) \div 100 - 2 /\ got[e][2] <= lim[e][2] + Abs(lim[e][2]) \div 100 + 2
JudgePlunge(r) ==
   Need(r.pts[1] = r.a /\ \A c \in 1..3 : Close(r.pts[Len(r.pts)][c], r.b[c], 1), "plunge.ends", <<r.pts[1], r.pts[Len(r.pts)], r.a, r.b>>)
   \o Need(\A k \in 1..Len(r.pts), c \in 1..2 : Close(r.pts[k][c], r.a[c], 52), "plunge.strays", r.a)
   \o Need(\A k \in 1..(Len(r.pts)-1) : IF r.a[3] < r.b[3] THEN r.pts[k+1][3] >= r.pts[k][3] - 2 ELSE r.pts[k+1][3] <= r.pts[k][3] + 2, "plunge.returns", [k \in 1..Len(r.pts) |-> r.pts[k][3]])
   \o Need((r.mach \/ Within(r.der[1], r.lim[1])) /\ Close(r.der[1][3][1], 0, -r.lim[1][3][1] + 5) /\ Close(r.der[1][3][2], 0, r.lim[1][3][2] + 5), "plunge.speed", <<r.der[1], r.lim[1]>>)
   \o Need(Within(r.der[2], r.lim[2]) /\ Within(r.der[3], r.lim[3]), "plunge.limits", <<r.der, r.lim>>)
   \o Need(\A k \in 1..2, c \in 1..3 : Close(r.rest[k][c], 0, 3), "plunge.rest", r.rest)
   \o Need(\A c \in 1..3 : Close(r.traj[1][c], r.a[c], 2) /\ Close(r.traj[Len(r.traj)][c], r.b[c], 12), "plunge.traj", <<r.traj[1], r.traj[Len(r.traj)]>>)
JudgeRun(r) == LET path == Interp(r.lines).path o == r.o n == Len(r.its) R == Len(r.rooms) IN
   IF From(path, o, Len(path)) + Count(path[Len(path)], o) - 1 # R THEN <<>> ELSE   \* a matter of the rooms
   IF r.back THEN LET k == 2 IN \* the second block of this program goes back the way the first came
      Need(n >= k /\ r.its[k].ok /\ Near(r.its[k].plan[1].last.x, r.rooms[k].b, 3*o.tol), "run.turning", <<k, r.its[k].plan[1].last.x, r.rooms[k].b>>) ELSE
   \* every segment once, in order; again only where no solution was found before
   LET failed(k) == \E j \in 1..(k-1) : ~r.its[j].ok IN
   Need(n = R \/ failed(n + 1), "run.visits", <<n, R, [k \in 1..n |-> r.its[k].cur]>>)
   \o Cat([k \in 1..n |-> LET it == r.its[k] c == Min2(k, R) b == path[BlockOf(path, o, c)] IN
        IF it.cur # k - 1 THEN Need(failed(k) /\ it.cur < R /\ k > 1 /\ it.cur - r.its[Max2(k-1, 1)].cur \in {0, 1}, "run.order", <<k, it.cur>>) ELSE
        Need(it.window = [j \in 1..Min2(r.W, R - it.cur) |-> it.cur + j - 1], "run.window", <<k, it.cur, it.window, r.W>>)
        \o (IF it.ok /\ ~failed(k) /\ it.cur = k - 1 /\ Len(it.plan) > 0 THEN LET first == it.plan[1].first last == it.plan[Len(it.plan)].last before == r.its[Max2(k-1, 1)].plan[1].last IN
          Need(Len(it.plan) = Len(it.window), "run.plan", <<k, Len(it.plan), it.window>>)
          \* every part of the plan keeps to its room and to the limits, and goes on where the one before ends
          \o Cat([j \in 1..Min2(Len(it.plan), R - it.cur) |-> LET p == it.plan[j] m == c + j - 1 IN
               Need(\A e \in 1..Len(p.pts) : InOwn(r, path, m, p.pts[e]), "run.room", <<k, j, Room(r, m), p.pts>>)
               \o Need(p.T < 5 \/ ((IF r.mach THEN p.speed <= r.vmax + r.vmax \div 100 + 2 ELSE Within(p.vmax, r.lim[1]))
                       /\ Within(p.amax, r.lim[2]) /\ Within(p.jmax, r.lim[3])), "run.limits", <<k, j, p.vmax, p.speed, p.amax, p.jmax>>)
               \o (IF j = 1 \/ p.T < 5 \/ it.plan[j-1].T < 5 THEN <<>> ELSE Joins(r, it.plan[j-1].last, p.first, <<k, j>>))])
          \* goes on where, as fast, and accelerating as, it ended before
          \o (IF k = 1 THEN Need(Near(first.x, path[1].a, 2) /\ Near(first.v, <<0, 0, 0>>, 2), "run.begin", first) ELSE Joins(r, before, first, <<k, 1>>))
          \o (IF it.window # <<>> /\ it.window[Len(it.window)] = R - 1 THEN Need(Near(last.x, path[Len(path)].b, 2) /\ Near(last.v, <<0, 0, 0>>, 5), "run.end", <<k, last>>) ELSE <<>>)
          \o (IF c = R THEN <<>> ELSE Need(InOwn(r, path, c + 1, it.plan[1].last.x), "run.handover", <<k, it.plan[1].last.x, Room(r, c + 1)>>))
          ELSE <<>>)])
   \* what is handed out in the end: from the start to the goal, never faster than the tool may go
   \o (IF r.traj = <<>> \/ \E j \in 1..n : ~r.its[j].ok THEN <<>> ELSE
       Need(Near(r.traj[1], <<path[1].a[1], path[1].a[2]>>, 2) /\ Near(r.traj[Len(r.traj)], <<path[Len(path)].b[1], path[Len(path)].b[2]>>, 12), "run.traj.ends", <<r.traj[1], r.traj[Len(r.traj)]>>)
       \o Cat([j \in 1..(Len(r.traj) - 1) |-> Need(Near(r.traj[j+1], r.traj[j], r.vmax \div 80 + 3), "run.traj", <<j, r.traj[j], r.traj[j+1]>>)]))
Judge(r) == CASE r.type = "prog" -> JudgeProg(r) [] r.type = "conv" -> JudgeConv(r) [] r.type = "rooms" -> JudgeRooms(r) [] r.type = "run" -> JudgeRun(r) [] r.type = "plunge" -> JudgePlunge(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
