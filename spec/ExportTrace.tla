----------------------------- MODULE ExportTrace -----------------------------
(* Judges histories in which the exported program and the Python problem it  *)
(* comes from were asked the same.  Values in 1e-5, times in 1e-6.           *)
EXTENDS Verdict
Inf == 2000000000
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k] \div 2, b[k] \div 2, tol)
Off(a, b, tol) == IF Len(a) # Len(b) THEN <<Len(a), Len(b)>>
                  ELSE LET S == {k \in 1..Len(a) : ~Close(a[k] \div 2, b[k] \div 2, tol)} IN
                       LET k == CHOOSE x \in S : \A y \in S : x <= y IN <<Cardinality(S), k, a[k], b[k]>>
Like(a, b, tol, clause, info) == IF Same(a, b, tol) THEN <<>> ELSE <<B(clause, <<info, Off(a, b, tol)>>)>>
\* when an update is for
Due(h, k) == LET s == h.steps[k] IN
   (IF k = 1 \/ s.restart THEN 0 ELSE h.steps[k-1].t + (IF h.steps[k-1].ok THEN h.upd ELSE 0)) + s.shift * h.ts
Before(h, k) == IF k = 1 \/ h.steps[k].restart THEN 0 ELSE h.steps[k-1].t
\* bounds of the constraints: those of an obstacle only if it is to be avoided
Want(s, b, k, inf) == IF s.own[k] > 0 /\ ~s.avoid[s.own[k]] THEN inf ELSE b[k]
Bounds(s, b, inf) == [k \in 1..Len(b) |-> IF k <= Len(s.own) THEN Want(s, b, k, inf) ELSE b[k]]
\* <<cost, violation>>.  The solver may go another way round an obstacle, now and then: with the same guess, only
\* differences in the last digits bring it there
Feasible(s) == s.ok => s.cost[1][2] <= 100 + Max2(s.cost[2][2], 0)
Other(s) == s.ok /\ s.okP /\ ~Same(s.c, s.cP, 100) /\ ~Close(s.cost[1][1], s.cost[2][1], 200 + Abs(s.cost[2][1]) \div 200)
Odds(h) == {k \in 1..Len(h.steps) : h.steps[k].ok # h.steps[k].okP}
Others(h) == {k \in 1..Len(h.steps) : Other(h.steps[k])}
JudgeStep(h, s, k) ==
   Need(Close(s.t, Due(h, k), 2), "exp.time", <<k, s.t, Due(h, k)>>)
   \o Need(Close(s.prev, Before(h, k), 2), "exp.time.before", <<k, s.prev, Before(h, k)>>)
   \o Like(s.p, s.pP, 2, "exp.params", <<k, s.first, s.shift>>)
   \o Like(s.lb, Bounds(s, s.lbP, -Inf), 2, "exp.bounds", <<k, s.avoid>>)
   \o Like(s.ub, Bounds(s, s.ubP, Inf), 2, "exp.bounds", <<k, s.avoid>>)
   \o Like(s.x0, s.x0P, 20, "exp.guess", <<k, s.fresh, s.t, s.prev>>)
   \o Need(Feasible(s), "exp.plan.feasible", <<k, s.cost>>)
   \o Like(s.traj, s.trajP, 5, "exp.trajectory", k)
JudgeRun(h) ==
   Need(h.died = "", "exp.died", <<Len(h.steps), h.died>>)
   \o Need(4*Cardinality(Others(h)) <= Max2(4, Len(h.steps)), "exp.plan", [k \in Others(h) |-> h.steps[k].cost])
   \o Need(Cardinality(Odds(h)) <= 1, "exp.ok", [k \in Odds(h) |-> h.steps[k].ok])
   \o ForEach(Len(h.steps), LAMBDA k : JudgeStep(h, h.steps[k], k))
Judge(h) == CASE h.type = "run" -> JudgeRun(h)
              [] h.type = "predict" -> Like(h.ps, h.psP, 30, "exp.predict.state", <<h.mode, h.m>>) \o Like(h.pi, h.piP, 2, "exp.predict.input", <<h.mode, h.m>>)
              [] h.type = "sample" -> Like(h.r, h.rP, 2, "exp.sample", h.der)
              [] h.type = "fail" -> <<B("exp." \o h.what, h.text)>>
              [] OTHER -> <<B("exp.type", h.type)>>
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
