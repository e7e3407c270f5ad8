---------------------------- MODULE VehicleTrace ----------------------------
(* Judges published trajectories: plan and motion model have to agree.        *)
(* record "traj": m (model), h6 (half step, microseconds), s (rows of states, *)
(*   1e-6), u (rows of inputs, 1e-4), pose, start (position asked for),       *)
(*   center: fleet centre rows and rel (formation offset, 1e-4)               *)
(* record "ode": the model's right hand side at random states and inputs      *)
EXTENDS Verdict, Vehicles
CloseV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol)
\* one double step [k, k+2] of the recorded motion: its mean rate against the model's
StepOK(r, k, c, f0, f1, f2) ==
    LET d == r.s[k+2][c] - r.s[k][c]
        dw == IF c \in r.ang THEN Wrap(d) ELSE d
        want == RDiv(f0[c] + 4*f1[c] + f2[c], 6)
        curv == Abs(f0[c] - 2*f1[c] + f2[c])
        mean == RDiv(dw * 100, r.h2)            \* r.h2: double step in 1e-4 s: 1e-6/1e-4/100 = 1e-4
    IN Close(mean, want, r.tol + curv + (Abs(want) \div 1000))
Motion(r) ==
    Cat([j \in 1..((Len(r.s) - 1) \div 2) |->
        LET k == 2*j - 1
            f0 == Rate(r.m, r.s[k], r.u[k])
            f1 == Rate(r.m, r.s[k+1], r.u[k+1])
            f2 == Rate(r.m, r.s[k+2], r.u[k+2])
            brk == {c \in 1..Len(r.s[1]) : c \notin r.skip /\ ~StepOK(r, k, c, f0, f1, f2)}
        IN Need(brk = {}, "motion.ode",
                IF brk = {} THEN "" ELSE LET c == CHOOSE c \in brk : TRUE IN
                   <<"sample", k, "state", c, "moved", r.s[k+2][c] - r.s[k][c], "rates", f0[c], f1[c], f2[c]>>)])
Poses(r) == Cat([k \in 1..Len(r.s) |->
    Need(CloseV(Pose(r.m, r.s[k]), r.pose[k], 2), "motion.pose", <<k, r.s[k], r.pose[k]>>)])
\* the trailer is always one hitch length behind the vehicle
Hitch(r) == IF r.m.kind # "trailer" THEN <<>> ELSE
    Cat([k \in 1..Len(r.s) |->
       LET s == r.s[k] IN
       Need(/\ Close(s[4] - s[1], Mul(r.m.len4, Cos(s[3])) * 100, 300)
            /\ Close(s[5] - s[2], Mul(r.m.len4, Sin(s[3])) * 100, 300), "motion.hitch", <<k, s>>)])
\* fleet centre: the point that lies at rel in the vehicle's own frame
Center(r) == IF r.center = <<>> THEN <<>> ELSE
    Cat([k \in 1..Len(r.s) |->
       LET th == IF r.turn THEN r.s[k][3] ELSE 0
           x == r.s[k][1] + 100*(Mul(r.rel[1], Cos(th)) - Mul(r.rel[2], Sin(th)))
           y == r.s[k][2] + 100*(Mul(r.rel[1], Sin(th)) + Mul(r.rel[2], Cos(th)))
       IN Need(Close(r.center[k][1], x, 700) /\ Close(r.center[k][2], y, 700),
               "motion.center", <<k, r.center[k], x, y>>)])
JudgeTraj(r0) ==
    LET r == [r0 EXCEPT !.ang = {r0.ang[k] : k \in 1..Len(r0.ang)}, !.skip = {r0.skip[k] : k \in 1..Len(r0.skip)}]
    IN Cat(<< Need(Len(r.s) = r.n /\ Len(r.u) = r.n /\ Len(r.pose) = r.n, "motion.length", <<r.n, Len(r.s), Len(r.u)>>),
              Need(CloseV([k \in 1..Len(r.start) |-> r.s[1][k]], r.start, 5), "motion.start", <<r.s[1], r.start>>),
              Poses(r), Hitch(r), Center(r), Motion(r) >>)
JudgeOde(r) == Cat([k \in 1..Len(r.s) |->
    LET f == Rate(r.m, r.s[k], r.u[k]) IN
    Need(CloseV(f, r.f[k], r.tol), "model.ode", <<r.s[k], r.u[k], r.f[k], f>>)])
\* initial values handed to the optimizer against the plan they continue: pairs [want, got]
JudgeSeam(r) == Cat([k \in 1..Len(r.want) |->
    Need(CloseV(r.want[k], r.got[k], r.tol), "seam." \o r.name[k], <<r.want[k], r.got[k]>>)])
\* the stop criterion: says arrived when at the goal at rest and not otherwise (2 quanta of slack)
JudgeTerm(r) == Cat([k \in 1..Len(r.dx) |->
    LET dx == r.dx[k] v == r.v[k]
        in == Within(dx, r.tol - 2) /\ \A j \in 1..Len(v) : Within(v[j], r.tol - 2)
        out == ~Within(dx, r.tol + 2) \/ \E j \in 1..Len(v) : ~Within(v[j], r.tol + 2)
    IN Need((in => r.says[k]) /\ (out => ~r.says[k]), "stop.criterion", <<dx, v, r.says[k]>>)])
Judge(r) == CASE r.type = "traj" -> JudgeTraj(r)
              [] r.type = "ode" -> JudgeOde(r)
              [] r.type = "term" -> JudgeTerm(r)
              [] r.type = "seam" -> JudgeSeam(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
=============================================================================
