--------------------------- MODULE ObstacleTrace ---------------------------
(* Judges recorded motions of obstacles.                                      *)
(* record "run": per coordinate c: s0[c], ev[c] (jumps, sorted), t (10 ms),      *)
(*    p, v, a [c][sample]; th0, om, th [sample]; acc: extra input             *)
(* record "told": what the optimizer is told: now (time since the knot), H *)
(*    s[c] the present state, sample times tau (from now), p [c][sample], *)
(*    th, om, cw, sw [sample] (1e-4)                                          *)
(* record "same": two recordings that must agree                              *)
EXTENDS Verdict, ObstacleMotion
V == INSTANCE Vehicles
RunC(r, c) ==
  LET s0 == <<r.s0[c][1], r.s0[c][2], r.s0[c][3]>>
      ev == r.ev[c]
      f(k) == Go(s0, r.t0, r.t[k], ev, Past(ev, r.t0) + 1, TRUE)
      g(k) == Go(s0, r.t0, r.t[k], ev, Past(ev, r.t0) + 1, FALSE)
      near(x, k) == /\ Abs(x[1] - r.p[c][k]) <= r.tol /\ Abs(x[2] - r.v[c][k]) <= 20 /\ Abs(x[3] - r.a[c][k] - r.push[c]) <= 2
  IN Cat([k \in 1..Len(r.t) |-> LET x == f(k) y == g(k) IN
       Need(near(x, k) \/ near(y, k), "motion.state", <<"coordinate", c, "time", r.t[k], "want", x, "got", <<r.p[c][k], r.v[c][k], r.a[c][k]>>>>)])
JudgeRun(r) == Cat([c \in 1..Len(r.s0) |-> RunC(r, c)])
   \o Cat([k \in 1..Len(r.th) |-> LET want == r.th0 + Rd(r.om * (r.t[k] - r.t0), 100) IN
         Need(Abs(want - r.th[k]) <= 60, "motion.turn", <<r.t[k], want, r.th[k]>>)])
   \o Cat([k \in 1..(Len(r.t)-1) |-> Need(r.t[k+1] - r.t[k] = r.step, "motion.times", <<r.t[k], r.t[k+1]>>)])
JudgeTold(r) ==
   Cat([c \in 1..Len(r.s) |-> Cat([k \in 1..Len(r.tau) |->
        LET x == Glide(<<r.s[c][1], r.s[c][2], r.s[c][3]>>, r.tau[k]) IN
        Need(Abs(x[1] - r.p[c][k]) <= 40, "told.position", <<"coordinate", c, "in", r.tau[k], x[1], r.p[c][k]>>)])])
   \o Cat([k \in 1..Len(r.cw) |-> LET th == r.th + Rd(r.om * r.tau[k], 100) tol == IF r.om = 0 THEN 4 ELSE 165 IN
        \* a turn is told as quarters of a circle, which run up to a degree ahead or behind in between
        Need(/\ Abs(V!Cos(th) - r.cw[k]) <= tol /\ Abs(V!Sin(th) - r.sw[k]) <= tol
             /\ Abs(r.cw[k]*r.cw[k] + r.sw[k]*r.sw[k] - 100000000) <= 30000, "told.turn",
             <<"in", r.tau[k], <<V!Cos(th), V!Sin(th)>>, <<r.cw[k], r.sw[k]>>>>)])
JudgeSame(r) == Need(r.a = r.b, r.clause, r.info)
Judge(r) == CASE r.type = "run" -> JudgeRun(r) [] r.type = "told" -> JudgeTold(r) [] r.type = "same" -> JudgeSame(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
