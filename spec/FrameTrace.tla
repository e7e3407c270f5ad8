----------------------------- MODULE FrameTrace -----------------------------
(* Judges frames that the real code made.  Lengths in 1e-4, times in 1e-2.   *)
EXTENDS Verdict, Frames
Tol == 3
Set(s) == {s[k] : k \in 1..Len(s)}
Near(p, q, tol) == Close(p[1], q[1], tol) /\ Close(p[2], q[2], tol)
\* squared distance in 1e-3
D2(p, q) == LET x == (p[1]-q[1]) \div 10 y == (p[2]-q[2]) \div 10 IN x*x + y*y
FreeHull(r, p, q, tol) == Free(Hull(p, q, r.m), Set(r.obs), tol)
\* p is (about as close as) the closest waypoint of the path to the start
Closest(r, k) == \A j \in 1..Len(r.path) : D2(r.path[k], r.start) <= D2(r.path[j], r.start) + 3
\* the waypoint after it
Onwards(r, P(_)) == \A k \in 1..Len(r.path) : Closest(r, k) => P(IF k < Len(r.path) THEN r.path[k+1] ELSE r.path[k])
JudgeRefused(r) ==
   \* no frame was made: there must not be one
   Need(~FreeHull(r, r.start, r.goal, 2*Tol), "frame.refused.goal", <<r.start, r.goal, r.msg>>)
   \o Need(\E k \in 1..Len(r.path) : Closest(r, k) /\ ~FreeHull(r, r.start, r.path[k], 2*Tol), "frame.refused", <<r.start, r.path, r.msg>>)
\* moving obstacles: mv.b at present, velocity mv.v, looked for at the sampling times ts during [0, T]
At(mv, t) == Shift(mv.b, <<(mv.v[1]*t) \div 100, (mv.v[2]*t) \div 100>>)
Must(r, mv) == \E l \in 0..(r.T \div r.ts) : Touch(At(mv, l*r.ts), r.L, -10)
\* on a course that leaves the frame alone for all of the time and a bit
May(r, mv) == Touch(Join(mv.b, At(mv, r.T + 3*r.ts)), r.L, 10)
JudgeSets(r) ==
   ForEach(Len(r.obs), LAMBDA k :
      Need(Touch(r.obs[k], r.L, -Tol) => r.stat[k], "frame.stationary.missing", <<k, r.obs[k], r.L>>)
      \o Need(r.stat[k] => Touch(r.obs[k], r.L, Tol), "frame.stationary.extra", <<k, r.obs[k], r.L>>))
   \o ForEach(Len(r.movs), LAMBDA k :
      Need(Must(r, r.movs[k]) => r.movs[k].in, "frame.moving.missing", <<k, r.movs[k], r.L, r.T>>)
      \o Need(r.movs[k].in => May(r, r.movs[k]), "frame.moving.extra", <<k, r.movs[k], r.L, r.T>>)
      \o Need(r.movs[k].in => r.movs[k].avoid, "frame.moving.avoided", <<k, r.movs[k]>>)
      \o Need(~r.movs[k].stat, "frame.moving.stands", <<k, r.movs[k]>>))
JudgeBasic(r) ==
   Need(Within(r.L, r.room, Tol), "frame.room", <<r.L, r.room>>)
   \o Need(Clear(r.start, r.L, r.r - Tol), "frame.start", <<r.start, r.L, r.r>>)
   \o Need(Clear(r.end, r.L, r.r - Tol), "frame.end", <<r.end, r.L, r.r>>)
   \o Need(r.wps # <<>> /\ r.wps[Len(r.wps)] = r.end, "frame.end.last", <<r.wps, r.end>>)
   \o Need(\A k \in 1..2 : Close(r.pos[k]*2, r.L[k] + r.L[k+2], 2*Tol), "frame.shape.position", <<r.pos, r.L>>)
   \o Need(Close(r.size[1], r.L[3] - r.L[1], Tol) /\ Close(r.size[2], r.L[4] - r.L[2], Tol), "frame.shape.size", <<r.size, r.L>>)
JudgeCorridor(r) ==
   Need(Free(r.L, Set(r.obs), -1), "frame.clear", <<r.L, r.obs>>)
   \o Need(FreeHull(r, r.start, r.goal, 2*Tol) => r.end = r.goal, "frame.goal", <<r.start, r.goal, r.end>>)
   \o Need(Onwards(r, LAMBDA w : FreeHull(r, r.start, w, 2*Tol)) => ~Near(r.end, r.start, 1), "frame.stuck", <<r.start, r.path, r.L>>)
   \o (IF r.after THEN <<>> ELSE
       Need(\A s \in 1..4 : LET b == Grow(r.L, s, r.step + 2*Tol) IN ~Within(b, r.room, 0) \/ ~Free(b, Set(r.obs), 0), "frame.wide", <<r.L, r.step, r.obs>>)
       \o ForEach(Len(r.wps), LAMBDA k : Need(r.end = r.goal \/ Clear(r.wps[k], r.L, -Tol), "frame.waypoints", <<k, r.wps[k], r.L>>)))
\* a frame of fixed size around the start, moved by at most lim towards the waypoint
JudgeShift(r) == LET h == r.fsize \div 2 least == <<r.start[1] - h + r.lim, r.start[2] - h + r.lim, r.start[1] + h - r.lim, r.start[2] + h - r.lim>>
                     most == <<r.start[1] - h - r.lim, r.start[2] - h - r.lim, r.start[1] + h + r.lim, r.start[2] + h + r.lim>> IN
   Need(\A k \in 1..2 : r.L[k] <= More(least[k], r.room[k]) + Tol /\ r.L[k+2] >= Less(least[k+2], r.room[k+2]) - Tol, "shift.least", <<r.L, least>>)
   \o Need(Within(r.L, IF r.end = r.goal THEN Join(most, Hull(r.goal, r.goal, r.m)) ELSE most, Tol), "shift.most", <<r.L, most, r.end>>)
   \o Need(r.end = r.goal \/ (r.L[3] - r.L[1] <= r.fsize + Tol /\ r.L[4] - r.L[2] <= r.fsize + Tol), "shift.size", <<r.L, r.fsize>>)
   \* all the rest of the path stays within reach: the frame has to have the goal
   \o Need((\A k \in 1..Len(r.path) : Clear(r.path[k], Grow(Grow(Grow(Grow(r.start \o r.start, 1, h), 2, h), 3, h), 4, h), Tol)) => r.end = r.goal, "shift.goal", <<r.path, r.start, r.end>>)
\* two frames in line, after they have been fitted to each other
JudgePair(r) == Need(Clear(r.end, r.L2, r.r - Tol), "pair.joined", <<r.end, r.L2, r.r>>)
Judge(r) == IF r.type = "refused" THEN JudgeRefused(r)
            ELSE IF r.type = "pair" THEN JudgePair(r)
            ELSE JudgeBasic(r) \o JudgeSets(r) \o (IF r.type = "corridor" THEN JudgeCorridor(r) ELSE JudgeShift(r))
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
=============================================================================
