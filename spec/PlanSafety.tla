------------------------------ MODULE PlanSafety ------------------------------
(* Judges plans the optimizer accepted: over the whole horizon the vehicle    *)
(* keeps clear of every obstacle (which moves on as announced), of the other  *)
(* vehicles and of the walls, respects its limits, and ends at rest.          *)
(* record "safe": dim, shapes (of the vehicle), obs (shape, p, v, acc, th,    *)
(*   om: 1e-4 units, th and om 1e-6), t (sample times, 1e-2 s, from now),     *)
(*   pose[sample][shape] = coordinates (1e-4) and heading th[sample][shape]   *)
(*   (1e-6), dir[sample][shape][obstacle]: direction along which to look      *)
(* record "pair": two vehicles; record "room"; record "lim"; record "end"     *)
EXTENDS Verdict, Shapes
\* an obstacle keeps its acceleration and its rate of turn
At(o, k, t) == o.p[k] + RDiv(o.v[k] * t, 100) + RDiv(RDiv(o.acc[k] * t, 100) * t, 200)
Turned(o, t) == o.th + RDiv(RDiv(o.om, 10) * t, 10)
Obs(o, vs, t) == Placed(vs, [k \in 1..Len(o.p) |-> At(o, k, t)], Turned(o, t))
JudgeSafe(r) ==
    LET sv == [s \in 1..Len(r.shapes) |-> Vertices(r.shapes[s])]
        ov == [o \in 1..Len(r.obs) |-> Vertices(r.obs[o].shape)]
    IN Cat([k \in 1..Len(r.t) |-> Cat([s \in 1..Len(r.shapes) |->
         LET A == Placed(sv[s], r.pose[k][s], r.th[k][s]) ra == Radius(r.shapes[s]) IN
         Cat([o \in 1..Len(r.obs) |->
            LET n0 == r.dir[k][s][o]
                B0 == Obs(r.obs[o], ov[o], r.t[k])
                flat == r.dim = 3 /\ Len(B0[1]) = 2          \* an obstacle of the plane stands for a column
                BB == IF flat THEN [j \in 1..Len(B0) |-> Append(B0[j], 0)] ELSE B0
                g == Gap(A, ra, BB, Radius(r.obs[o].shape), n0)
            IN Need(IsUnit(n0) /\ (flat => n0[3] = 0), "witness", n0)
               \o Need(g >= -(r.tol + r.obs[o].slack), "plan.collision", <<"sample", k, "shape", s, "obstacle", o, "gap", g>>)])])])
JudgePair(r) == LET va == Vertices(r.shapes[1]) vb == Vertices(r.shapes[2]) IN
    Cat([k \in 1..Len(r.dir) |->
       LET g == Gap(Placed(va, r.pose[k][1], r.th[k][1]), Radius(r.shapes[1]),
                    Placed(vb, r.pose[k][2], r.th[k][2]), Radius(r.shapes[2]), r.dir[k])
       IN Need(IsUnit(r.dir[k]), "witness", r.dir[k]) \o
          Need(g >= -r.tol, "plan.vehicles", <<"sample", k, "gap", g>>)])
\* the room: a convex polygon, or a box of space
JudgeRoom(r) ==
    LET \* a plate's radius is its height, which stretches out along its normal only
        sv == [s \in 1..Len(r.shapes) |-> Vertices(IF r.shapes[s].kind = "plate" THEN [r.shapes[s] EXCEPT !.kind = "cuboid"] ELSE r.shapes[s])]
        w0 == Vertices(r.room)
        w == Placed(w0, r.at, 0)
        box == LET hs == <<Half(r.room.a), Half(r.room.b), Half(r.room.c)>> IN hs
    IN Cat([k \in 1..Len(r.pose) |-> Cat([s \in 1..Len(r.shapes) |->
         LET A == Placed(sv[s], r.pose[k][s], r.th[k][s])
             ra == IF r.dim = 3 /\ r.shapes[s].kind # "sphere" THEN 0 ELSE Radius(r.shapes[s]) IN
         IF r.dim = 2 THEN Need(Inside(A, ra, w, r.len, r.tol), "plan.room", <<"sample", k, "shape", s, r.pose[k][s]>>)
         ELSE Need(\A j \in 1..Len(A) : \A c \in 1..3 : Abs(A[j][c] - r.at[c]) + ra <= box[c] + r.tol, "plan.room",
                   <<"sample", k, "shape", s, r.pose[k][s]>>)])])
\* limits.  u: inputs (1e-4), d: inputs or states whose change is limited, h: sample time (1e-4 s)
In(x, lo, hi, tol) == x >= lo - tol /\ x <= hi + tol
Slack(b) == 60 + Abs(b) \div 200
JudgeLim(r) ==
    Cat([k \in 1..Len(r.rows) |-> Cat([c \in 1..Len(r.box) |->
        LET b == r.box[c] x == r.rows[k][b.col] IN
        Need(b.off[k] \/ (x >= b.lo - Slack(b.lo) /\ x <= b.hi + Slack(b.hi)), "limit." \o b.name, <<"sample", k, x, b.lo, b.hi>>)])
      \o Cat([c \in 1..Len(r.slope) |->
        LET b == r.slope[c] IN
        IF k = 1 THEN <<>> ELSE
        LET d == r.rows[k][b.col] - r.rows[k-1][b.col] lo == RDiv(b.lo * r.h, 10000) hi == RDiv(b.hi * r.h, 10000) IN
        Need(b.off[k] \/ b.off[k-1] \/ (d >= lo - Slack(lo) /\ d <= hi + Slack(hi)), "limit." \o b.name, <<"sample", k, "change", d, lo, hi>>)])
      \o Cat([c \in 1..Len(r.norm) |->
        LET b == r.norm[c] v(j) == [i2 \in 1..Len(b.cols) |-> r.rows[j][b.cols[i2]]]
            m == b.max + Slack(b.max) hm == RDiv(b.dmax * r.h, 10000) IN
        Need(Norm2(v(k), 1) <= m*m, "limit." \o b.name, <<"sample", k, v(k), b.max>>)
        \o (IF k = 1 THEN <<>> ELSE
            LET d == [i2 \in 1..Len(b.cols) |-> r.rows[k][b.cols[i2]] - r.rows[k-1][b.cols[i2]]]
            IN Need(Norm2(d, 1) <= (hm + Slack(hm))*(hm + Slack(hm)), "limit." \o b.dname, <<"sample", k, d, hm>>))])])
JudgeEnd(r) ==
    Cat([k \in 1..Len(r.want) |-> Need(Close(r.want[k], r.got[k], r.tol), "end." \o r.name[k], <<r.want[k], r.got[k]>>)])
Judge(r) == CASE r.type = "safe" -> JudgeSafe(r)
              [] r.type = "pair" -> JudgePair(r)
              [] r.type = "room" -> JudgeRoom(r)
              [] r.type = "lim" -> JudgeLim(r)
              [] r.type = "end" -> JudgeEnd(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
=============================================================================
