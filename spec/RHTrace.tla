------------------------------ MODULE RHTrace -------------------------------
(* Judges recorded receding horizon runs of the real simulator and deployer.  *)
(* One record is one run: a sequence of events                                *)
(*   upd    a re-plan: what the optimizer was given, what plan it gave back,  *)
(*          what the tool published                                           *)
(*   sim    the world moved on by n samples: what was added to the histories  *)
(*   sleep, over (the user overrules the state), goal                         *)
(* The specification keeps its own clock, plan and history and says what each *)
(* event has to look like.  Tables of a plan are anchored at the time of the  *)
(* re-plan: row 1 is "now".                                                   *)
EXTENDS Verdict, RHCore
CloseV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol)
\* first row where two tables differ, 0 if none, over rows 1..n of a and rows off+1.. of b
DiffRow(a, b, off, n, tol) ==
    LET badrows == {k \in 1..n : ~CloseV(a[k], b[k+off], tol)}
    IN IF badrows = {} THEN 0 ELSE CHOOSE k \in badrows : \A j \in badrows : k <= j
SameRows(a, b, off, n, tol, clause) ==
    LET d == DiffRow(a, b, off, n, tol)
    IN Need(d = 0, clause, IF d = 0 THEN "" ELSE <<"row", d, a[d], b[d+off]>>)

\* trapezium rule over a table of velocities: rows lo..hi (1-based), Ts in ms
TrapSum(vel, lo, hi, j) ==
    IF hi <= lo THEN 0
    ELSE FoldLeft(LAMBDA acc, k : acc + vel[k][j] + vel[k+1][j], 0, [k \in 1..(hi-lo) |-> lo+k-1])
Integrate(vel, lo, hi, Ts) ==
    [j \in 1..Len(vel[1]) |->
        LET s == TrapSum(vel, lo, hi, j) IN
        IF s >= 0 THEN (s * Ts + 1000) \div 2000 ELSE -((-s * Ts + 1000) \div 2000)]
AddV(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
ZeroV(n) == [j \in 1..n |-> 0]

JudgeRun(r) ==
    LET
    US == r.Ts * 1000                 \* microseconds per sample
    tol == r.tol
    \* ---------------------------------------------------------------- upd
    Elapsed(st, e) == st.now - st.prev
    \* the clause on what is predicted: state and input at the moment of the re-plan
    Seam(st, e, v) ==
        LET el == Elapsed(st, e)
            u == Span(el, r.upd)
            V == e.veh[v]
            P == st.plan[v]
            base == IF e.how = "meas" THEN e.meas[v]
                    ELSE IF st.hist[v] # <<>> THEN st.hist[v][Len(st.hist[v]) - u] ELSE ZeroV(r.nd)
            want == IF e.how = "enforce" THEN e.meas[v]
                    ELSE IF e.first THEN st.cur[v]
                    ELSE IF r.idealp THEN P.pos[el+1]
                    ELSE AddV(base, Integrate(P.vel, el - u + 1, el + 1, r.Ts))
            winp == IF e.how = "enforce" THEN e.minp[v]
                    ELSE IF e.first THEN ZeroV(r.nd) ELSE P.vel[el+1]
        IN IF (~e.first /\ e.how # "enforce") /\ el + 1 > Len(P.pos) THEN <<>>
           ELSE Cat(<< Need(CloseV(V.s0, want, tol + 2), "seam.state", <<e.now, V.s0, want>>),
                       Need(V.i0 = <<>> \/ CloseV(V.i0, winp, tol + 2), "seam.input", <<e.now, V.i0, winp>>),
                       Need(CloseV(V.goal, V.want, 1), "seam.goal", <<V.goal, V.want>>) >>)
    \* the published trajectory is the plan, from now on
    Published(st, e, v) ==
        LET V == e.veh[v]
            n == Len(V.tr.time)
        IN Cat(<< Need(n >= 1 /\ Abs(e.nrow - n) <= r.lenslack, "published.length", <<n, e.nrow>>),
                  Need(\A k \in 1..n : Close(V.tr.time[k], st.now*US + (k-1)*US, 2), "published.time", <<st.now, V.tr.time[1]>>),
                  Need(Len(V.tr.state) = n /\ Len(V.tr.input) = n /\ Len(V.tr.pose) = n, "published.sizes", n),
                  IF Len(V.tr.state) # n \/ Len(V.tr.input) # n THEN <<>> ELSE
                  Cat(<< SameRows(V.tr.state, V.pos, 0, Min2(n, e.nrow), tol, "published.state"),
                         SameRows(V.tr.input, V.vel, 0, Min2(n, e.nrow), tol + 1, "published.input"),
                         LET kn == V.kn m == Len(V.kn.want)
                         IN Cat(<< Need(Len(kn.time) = m /\ kn.sizes = <<m>> /\ \A k \in 1..Len(kn.time) :
                                            k > m \/ Close(kn.time[k], kn.want[k], 2),
                                        "published.knots-time", <<st.now, kn.time, kn.want>>),
                                   SameRows(kn.state, kn.pos, 0, Min2(m, Len(kn.state)), tol, "published.knots-state"),
                                   SameRows(kn.input, kn.vel, 0, Min2(m, Len(kn.input)), tol + 1, "published.knots-input") >>),
                         IF Len(V.tr.dd) = 0 THEN <<>>
                         ELSE SameRows(V.tr.dd, V.acc, 0, Min2(n, e.nrow), tol + 2, "published.acceleration") >>) >>)
    \* bookkeeping of the horizon
    Horizon(st, e) ==
        LET start == IF e.first THEN st.now ELSE st.start
            d == (st.now - start) * US
        IN IF r.mode = "fixed"
           THEN Cat(<< Need(Close(e.T, r.Hus, 1), "horizon.T", <<e.T, r.Hus>>),
                       Need(Close(e.t * r.ki, RelTimes(d, r.Hus, r.ki), 2*r.ki), "horizon.t",
                            <<"now-start", d, "t", e.t, "knot", r.Hus \div r.ki>>) >>)
           ELSE Cat(<< Need(e.t = 0, "horizon.t", e.t) >>)
    Guess(st, e, v) ==
        LET V == e.veh[v]
            el == Elapsed(st, e)
            P == st.plan[v]
            n == Min2(Len(V.guess), Len(P.pos) - el)
        IN IF e.first THEN <<>>
           ELSE IF r.mode = "fixed"
           THEN IF n < 1 THEN <<>>
                ELSE SameRows(V.guess, P.pos, el, n, tol + r.gtol, "guess.previous-plan")
           ELSE IF st.T < 2*r.upd*US \/ el > r.upd THEN <<>>
           ELSE Need(Close(e.T, st.T - el*US, 3), "guess.motion-time", <<e.T, st.T, el>>)
                \o (IF n < 1 THEN <<>>
                    ELSE SameRows(V.guess, P.pos, el, n, tol + r.gtol, "guess.previous-plan"))
    Obst(st, e, k) ==
        LET O == e.obs[k] H == st.ohist[k]
        IN IF H = <<>> THEN <<>>
           ELSE Need(CloseV(O.x, H, 1), "seam.obstacle-position", <<O.x, H>>)
    JUpd(st, e) ==
        LET rep == Cat(<< Need(Close(e.nowus, st.now*US, 2), "clock.current-time", <<e.nowus, st.now*US>>),
                          Horizon(st, e),
                          Cat([v \in 1..r.nv |-> Cat(<<Seam(st, e, v), Published(st, e, v), Guess(st, e, v)>>)]),
                          Cat([k \in 1..Len(e.obs) |-> Obst(st, e, k)]) >>)
        IN [bad |-> rep,
            st |-> [st EXCEPT !.start = IF e.first THEN st.now ELSE st.start,
                              !.prev = st.now,
                              !.T = e.Hus,
                              !.plan = [v \in 1..r.nv |-> [pos |-> e.veh[v].pos, vel |-> e.veh[v].vel]]]]
    \* ---------------------------------------------------------------- sim
    JSimV(st, e, v) ==
        LET h == e.hist[v]
            n == e.n
            L == st.now - st.t0 + n + 1      \* samples after this event, the first one included
            P == st.plan[v]
            news == h.state                  \* the samples added by this event
            wants == IF r.idealu \/ e.e = "sleep" THEN SubSeq(P.pos, 2, n+1)
                     ELSE [k \in 1..n |-> AddV(st.cur[v], Integrate(P.vel, 1, k+1, r.Ts))]
        IN Cat(<< Need(h.lens = <<L>>, "clock.signals-length", <<h.lens, L>>),
                  Need(Len(h.time) = n /\ \A k \in 1..Len(h.time) : Close(h.time[k], (st.now + k)*US, 2),
                       "clock.signals-time", <<st.now, n, h.time>>),
                  Need(h.pre = st.crc[v], "clock.history-rewritten", <<h.pre, st.crc[v]>>),
                  Need(h.stores = <<L-1>>, "clock.stored-plans", <<h.stores, L-1>>),
                  Need(Len(h.stime) = n /\ \A k \in 1..Len(h.stime) : Close(h.stime[k], st.now*US, 2),
                       "clock.stored-plan-in-force", <<st.now, h.stime>>),
                  IF Len(news) # n \/ e.e = "sleep" \/ Len(P.pos) < n + 1 THEN <<>>
                  ELSE Cat(<< SameRows(news, wants, 0, n, tol + 3, "applied.state"),
                              SameRows(h.input, SubSeq(P.vel, 2, n+1), 0, n, tol + 2, "applied.input"),
                              Need(\A k \in 1..n : SubSeq(h.pose[k], 1, Min2(r.nd, Len(h.pose[k]))) =
                                        SubSeq(h.state[k], 1, Min2(r.nd, Len(h.pose[k]))), "applied.pose", "") >>) >>)
    JSim(st, e) ==
        LET n == e.n
            rep == Cat(<< Need(Close(e.nowus, (st.now + n)*US, 2), "clock.current-time", <<e.nowus, (st.now+n)*US>>),
                          Need(e.clen = st.now - st.t0 + n + 1, "clock.simulator-time", <<e.clen, st.now - st.t0 + n + 1>>),
                          Need(Close(e.cend, (st.now + n)*US, 2), "clock.simulator-time", e.cend),
                          Cat([v \in 1..r.nv |-> JSimV(st, e, v)]),
                          Cat([k \in 1..Len(e.ohist) |->
                             Cat(<< Need(e.ohist[k].lens = <<st.now - st.t0 + n + 1>>, "clock.obstacle-length",
                                         <<e.ohist[k].lens, st.now - st.t0 + n + 1>>),
                                    Need(Len(e.ohist[k].time) = n /\ \A j \in 1..Len(e.ohist[k].time) :
                                           Close(e.ohist[k].time[j], (st.now + j)*US, 2), "clock.obstacle-time", e.ohist[k].time),
                                    Need(e.ohist[k].pre = st.ocrc[k], "clock.obstacle-history-rewritten", "") >>)]) >>)
            fin(v) == IF e.hist[v].state = <<>> THEN st.cur[v] ELSE e.hist[v].state[Len(e.hist[v].state)]
        IN [bad |-> rep,
            st |-> [st EXCEPT !.now = st.now + n,
                              !.cur = [v \in 1..r.nv |-> fin(v)],
                              !.hist = [v \in 1..r.nv |->
                                   LET b == IF st.hist[v] = <<>> THEN <<e.hist[v].s0>> ELSE st.hist[v]
                                       a == b \o e.hist[v].state
                                   IN IF Len(a) > 160 THEN SubSeq(a, Len(a)-159, Len(a)) ELSE a],
                              !.crc = [v \in 1..r.nv |-> e.hist[v].crc],
                              !.ocrc = [k \in 1..Len(e.ohist) |-> e.ohist[k].crc],
                              !.ohist = [k \in 1..Len(e.ohist) |-> e.ohist[k].last]]]
    JOver(st, e) ==
        [bad |-> <<>>,
         st |-> [st EXCEPT !.cur[e.v] = e.state,
                           !.hist[e.v] = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = e.state],
                           !.crc[e.v] = e.crc]]
    \* the vehicle hits something: it stands still, somewhere else
    JStop(st, e) ==
        LET want == AddV(st.cur[e.v], e.by)
        IN [bad |-> Need(CloseV(e.state, want, 2) /\ CloseV(e.predicted, want, 2) /\ CloseV(e.input, ZeroV(Len(e.input)), 0), "applied.hard-stop", <<st.cur[e.v], e.by, e.state, e.input>>),
            st |-> JOver(st, e).st]
    \* the user tells where the obstacle is: only the histories are touched
    Step(st, e) == IF e.e = "upd" THEN JUpd(st, e)
                   ELSE IF e.e = "over" THEN JOver(st, e)
                   ELSE IF e.e = "stop" THEN JStop(st, e)
                   ELSE IF e.e = "jump" THEN [bad |-> <<>>, st |-> [st EXCEPT !.now = e.now]]
                   ELSE JSim(st, e)
    st0 == [now |-> r.start, t0 |-> r.start, start |-> r.start, prev |-> r.start, T |-> 0,
            plan |-> [v \in 1..r.nv |-> [pos |-> <<>>, vel |-> <<>>]],
            cur |-> r.init, hist |-> [v \in 1..r.nv |-> <<>>], crc |-> [v \in 1..r.nv |-> 0],
            ocrc |-> r.ocrc0, ohist |-> [k \in 1..Len(r.ocrc0) |-> <<>>]]
    res == FoldLeft(LAMBDA acc, e :
                LET o == Step(acc.st, e)
                IN [st |-> o.st, bad |-> IF Len(acc.bad) > 8 THEN acc.bad ELSE acc.bad \o o.bad],
            [st |-> st0, bad |-> <<>>], r.ev)
    IN SelectSeq(res.bad, LAMBDA b : \E p \in 1..Len(r.props) :
                    SubSeq(b.clause, 1, Len(r.props[p])) = r.props[p])

Judge(r) == JudgeRun(r)
TraceNext == TraceStep(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceVerdict == WriteVerdict
=============================================================================
