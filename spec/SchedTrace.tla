----------------------------- MODULE SchedTrace -----------------------------
(* Judges histories of the real scheduler, update by update: where the       *)
(* vehicle is, the frames, and the problem that the optimizer is given.      *)
(* Lengths in 1e-4, times in 1e-2.                                           *)
EXTENDS Verdict, Frames
Tol == 5
Near(p, q, tol) == Close(p[1], q[1], tol) /\ Close(p[2], q[2], tol)
At(mv, t) == Shift(mv.b, <<(mv.v[1]*t) \div 100, (mv.v[2]*t) \div 100>>)
Must(mv, L, T, ts) == \E l \in 0..(T \div ts) : Touch(At(mv, l*ts), L, -20)
May(mv, L, T, ts) == Touch(Join(mv.b, At(mv, T + 3*ts)), L, 20)
AtGoal(h, f) == f.end = h.goal
Second(s) == IF s.nxt # <<>> THEN s.nxt ELSE IF Len(s.frames) > 1 THEN <<s.frames[2]>> ELSE <<>>
\* s: before, p: where the vehicle went.  Does it have to be handed on?
Due(h, s, p, d) == ~AtGoal(h, s.frames[1]) /\ Second(s) # <<>> /\ Clear(p, Second(s)[1].L, d)
Ends(fs) == [k \in 1..Len(fs) |-> fs[k].end]
Boxes(fs) == [k \in 1..Len(fs) |-> fs[k].L]
\* all the frames that are known: the window, and the one after it
Known(s) == s.frames \o (IF s.nxt # <<>> THEN s.nxt ELSE <<>>)
Advanced(h, s, t) == LET k == Known(s) n == Len(k) - 1 IN
   /\ Len(Known(t)) >= n /\ SubSeq(Ends(Known(t)), 1, n) = Tail(Ends(k))
   \* the shapes stay as well, unless frames are fitted to the next one
   /\ (h.l \/ SubSeq(Boxes(Known(t)), 1, n) = Tail(Boxes(k)))
\* the window is as long as asked for, or ends with the goal
Window(h, s) == LET fs == s.frames l == fs[Len(fs)] IN
   /\ \A k \in 1..(Len(fs)-1) : ~AtGoal(h, fs[k])
   /\ (Len(fs) = h.n0 \/ (Len(fs) < h.n0 /\ Len(fs) > 0 /\ AtGoal(h, l)))
   /\ (h.n0 = 1 => (s.nxt = <<>>) = AtGoal(h, l))
\* on all paths that were planned, the vehicle can go from each waypoint to the next in a frame
\* (each of these frames starts where the vehicle is, which is its first point, and goes on from the waypoint closest to it)
D2(p, q) == LET x == (p[1]-q[1]) \div 10 y == (p[2]-q[2]) \div 10 IN x*x + y*y
Nearest(path, k) == \A j \in 2..Len(path) : D2(path[k], path[1]) <= D2(path[j], path[1]) + 3
Leg(h, p, q) == \A o \in 1..Len(h.obs) : ~Touch(Hull(p, q, h.m), h.obs[o], 2*Tol)
Passable(h) == \A i1 \in 1..Len(h.paths) : LET p == h.paths[i1] IN
    /\ \A k \in 1..(Len(p)-1) : Leg(h, p[k], p[k+1])
    /\ \A k \in 2..Len(p) : Nearest(p, k) => Leg(h, p[1], p[k])
\* the stand-in goes straight on to the end of a frame, also past obstacles that frames of fixed size have in them
Strayed(h) == h.kind = "shift" /\ \E o \in 1..Len(h.obs) : Touch(Hull(h.last, h.last, 3*h.m), h.obs[o], 0)
JudgeState(h, s, k) == LET fs == s.frames n == Len(fs) IN
   Need(n > 0 /\ Window(h, s), "sched.window", <<k, h.n0, Ends(Known(s)), h.goal>>)
   \o Need(\A j \in 1..(Len(Known(s))-1) : Clear(Known(s)[j].end, Known(s)[j+1].L, h.r - Tol), "sched.joined", <<k, Known(s), h.r>>)
   \o Need(\A j \in 1..n : Within(fs[j].L, h.room, Tol) /\ Clear(fs[j].end, fs[j].L, h.r - Tol), "sched.frames", <<k, fs, h.r>>)
   \o Need(Clear(s.pos, fs[1].L, h.r - Tol), "sched.inside", <<k, s.pos, fs[1].L>>)
JudgeProblem(h, s, k) == LET fs == s.frames n == Len(fs) IN
   Need(Len(s.rooms) = n /\ \A j \in 1..n : \A e \in 1..4 : Close(s.rooms[j][e], fs[j].L[e], Tol), "problem.rooms", <<k, s.rooms, Boxes(fs)>>)
   \o Need(Near(s.xT, fs[n].end, Tol), "problem.end", <<k, s.xT, fs[n].end>>)
   \* the turn of the goal counts at the goal
   \o Need((h.veh = "dubins" /\ AtGoal(h, fs[n])) => Close(s.xT[3], h.goalT[3], Tol), "problem.end.pose", <<k, s.xT, h.goalT>>)
   \o Need((s.built /\ s.fresh) => Near(s.x0, s.pos, Tol), "problem.start", <<k, s.x0, s.pos>>)
   \o Need(s.alien = 0 /\ Len(s.stat) = n /\ Len(s.mov) = n, "problem.obstacles", <<k, s.alien>>)
   \o (IF Len(s.stat) # n \/ Len(s.mov) # n \/ Len(s.T) < n THEN <<>> ELSE
       ForEach(n, LAMBDA j : ForEach(Len(h.obs), LAMBDA o :
          Need(Touch(h.obs[o], fs[j].L, -Tol) => s.stat[j][o], "problem.stationary.missing", <<k, j, o>>)
          \o Need(s.stat[j][o] => Touch(h.obs[o], fs[j].L, Tol) \/ (h.l /\ Touch(h.obs[o], h.room, 0)), "problem.stationary.extra", <<k, j, o, fs[j].L, h.obs[o]>>)))
       \o ForEach(n, LAMBDA j : ForEach(Len(s.mv), LAMBDA o :
          Need(Must(s.mv[o], fs[j].L, s.T[j], h.ts) => s.mov[j][o], "problem.moving.missing", <<k, j, o, s.mv[o], fs[j].L, s.T[j]>>)
          \o Need(s.mov[j][o] => May(s.mv[o], fs[j].L, s.T[j], h.ts), "problem.moving.extra", <<k, j, o, s.mv[o], fs[j].L, s.T[j]>>))))
   \o Need(Len(s.guess) = n /\ \A j \in 1..Len(s.guess) : s.guess[j], "problem.guess", <<k, s.guess>>)
   \o Need((s.built /\ h.veh = "holonomic" /\ Len(s.guess) = n /\ h.n0 = 1 /\ s.fresh) => Near(s.g0, s.pos, 200) /\ Near(s.gT, s.xT, 200), "problem.guess.ends", <<k, s.g0, s.gT, s.pos, s.xT>>)
JudgeStep(h, s, t, k) ==
   \* t follows s
   LET moved == Ends(t.frames) # Ends(s.frames) \/ Ends(t.nxt) # Ends(s.nxt) IN
   Need(Due(h, s, t.pos, h.r + Tol) => (moved \/ Advanced(h, s, t)), "sched.switch.missed", <<k, t.pos, Known(s), Known(t)>>)
   \o Need(moved => Due(h, s, t.pos, h.r - Tol), "sched.switch.early", <<k, t.pos, Known(s), Known(t)>>)
   \o Need(moved => Advanced(h, s, t), "sched.advance", <<k, Known(s), Known(t)>>)
   \o Need(moved => t.built, "sched.problem.kept", <<k, Known(t)>>)
   \o Need(~moved => Boxes(t.frames) = Boxes(s.frames), "sched.frames.change", <<k, s.frames, t.frames>>)
   \o Need((~moved /\ t.mov # s.mov) => t.built, "sched.obstacles.rebuild", <<k, s.mov, t.mov>>)
   \o Need((~moved /\ t.built) => t.mov # s.mov \/ ~Passable(h), "sched.rebuild.idle", <<k, t.mov>>)
JudgeHistory(h) == LET n == Len(h.steps) IN
   Need(h.over = "" \/ ~Passable(h) \/ Strayed(h), "sched.stops", h.over)
   \o Need(h.arrived => Near(h.last, h.goal, 20), "sched.arrived", <<h.last, h.goal>>)
   \o Need(h.arrived => h.stored = h.due, "sched.stored", <<h.stored, h.due>>)
   \o (IF n = 0 THEN <<>> ELSE Need(h.steps[1].nr = 0 /\ h.steps[1].built, "sched.first", h.steps[1].nr))
   \o ForEach(n, LAMBDA k : JudgeState(h, h.steps[k], h.steps[k].nr) \o JudgeProblem(h, h.steps[k], h.steps[k].nr))
   \o ForEach(n-1, LAMBDA k : IF h.steps[k+1].nr # h.steps[k].nr + 1 THEN <<>> ELSE JudgeStep(h, h.steps[k], h.steps[k+1], h.steps[k+1].nr))
\* ------------------------------------------------ runs with the real optimization
Slack == 60
JudgePlan(h, p, k) == LET n == Len(p.seg) IN
   IF ~p.ok THEN <<>> ELSE
   Need(\A j \in 1..n : \A q \in 1..Len(p.seg[j]) : Clear(p.seg[j][q], p.rooms[j], h.r - Slack), "plan.room", <<k, p.rooms>>)
   \o Need(Near(p.seg[1][1], p.now, Slack), "plan.start", <<k, p.seg[1][1], p.now>>)
   \o Need(Near(p.seg[n][Len(p.seg[n])], p.end, Slack), "plan.end", <<k, p.seg[n][Len(p.seg[n])], p.end>>)
   \o Need(Near(p.v1[n], <<0, 0>>, 3*Slack), "plan.rest", <<k, p.v1[n]>>)
   \o Need(\A j \in 1..n : p.T[j] > 0, "plan.time", <<k, p.T>>)
   \o ForEach(n-1, LAMBDA j : Need(Near(p.seg[j][Len(p.seg[j])], p.seg[j+1][1], Slack) /\ Near(p.v1[j], p.v0[j+1], 3*Slack), "plan.joined", <<k, j, p.v1[j], p.v0[j+1]>>))
AllOk(h) == \A k \in 1..Len(h.plans) : h.plans[k].ok
\* distances within the tolerance of boxes of whole numbers: squares in 1e-3
JudgeReal(h) ==
   Need(h.over = "" \/ ~AllOk(h), "run.ends", h.over)
   \o Need(h.aligned, "run.signals", h.lens)
   \o ForEach(Len(h.plans), LAMBDA k : JudgePlan(h, h.plans[k], k))
   \o (IF ~AllOk(h) THEN <<>> ELSE
      Need(h.over # "" \/ Near(h.drive[Len(h.drive)], h.goal, 100), "run.arrived", <<h.drive[Len(h.drive)], h.goal>>)
      \o Need(\A k \in 1..Len(h.drive) : Clear(h.drive[k], h.room, h.r - Slack), "run.room", h.room)
      \o ForEach(Len(h.obs), LAMBDA o : Need(\A k \in 1..Len(h.drive) : ~Touch(Hull(h.drive[k], h.drive[k], h.r - Slack), h.obs[o], 0), "run.clear", <<o, h.obs[o]>>))
      \o ForEach(Len(h.mov), LAMBDA o : Need(\A k \in 1..Len(h.drive) : LET d == (h.r + h.movr[o]) \div 10 - 15 IN D2(h.drive[k], h.mov[o][k]) >= d*d, "run.moving", o)))
Judge(h) == IF h.type = "real" THEN JudgeReal(h) ELSE JudgeHistory(h)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
=============================================================================
