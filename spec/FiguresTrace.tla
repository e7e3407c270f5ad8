----------------------------- MODULE FiguresTrace -----------------------------
(* Judges recorded figures of the real code: the data of every line and every   *)
(* outline drawn, against what was recorded while the run went on.              *)
EXTENDS Verdict, Figures
SameLine(a, x, y, tx, ty) == Len(a.x) = Len(x) /\ Len(a.y) = Len(y) /\ \A k \in 1..Len(x) : Close(a.x[k], x[k], tx) /\ Close(a.y[k], y[k], ty)
Cut(v, n) == SubSeq(v, 1, n)
\* ---- the lines of a signal: axis c shows component c of every vehicle
Lines(r, q, c, s) == LET p(v) == r.plans[r.over[Over(s, Len(r.over))]].veh[v] IN
    [v \in 1..r.nv |-> <<[x |-> p(v).time, y |-> p(v).sig[q.what][c]], [x |-> Cut(r.times, s), y |-> Cut(r.sig[q.what][v][c], s)]>>
        \o (IF q.knots THEN <<[x |-> p(v).ktime, y |-> p(v).ksig[q.what][c]]>> ELSE <<>>)
        \o (IF q.pred THEN <<[x |-> <<p(v).time[1]>>, y |-> <<p(v).pred[q.what][c]>>]>> ELSE <<>>)]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
ShowsSignal(r, q, s) == Len(q.axes) = Len(r.sig[q.what][1])
    /\ \A c \in 1..Len(q.axes) : LET want == Flat(Lines(r, q, c, s)) got == q.axes[c].lines IN
         Len(got) = Len(want) /\ \A w \in 1..Len(want) : \E g \in 1..Len(got) : SameLine(got[g], want[w].x, want[w].y, 20, 2)
\* ---- the scene: outlines of the room, the obstacles and the vehicles, the path so far and the plan
IsCircle(v, at, rad) == Len(v) >= 12 /\ (\A k \in 1..Len(v) : LET d == (v[k][1]-at[1])*(v[k][1]-at[1]) + (v[k][2]-at[2])*(v[k][2]-at[2]) IN Close(d, rad*rad, 6*rad + 10))
    /\ \A c \in 1..2 : Close(FoldLeft(LAMBDA a, b : a + b[c] - at[c], 0, v), 0, 3*Len(v))
IsPoly(v, pts) == (\A k \in 1..Len(v) : \E m \in 1..Len(pts) : \A c \in 1..2 : Close(v[k][c], pts[m][c], 3))
    /\ \A m \in 1..Len(pts) : \E k \in 1..Len(v) : \A c \in 1..2 : Close(v[k][c], pts[m][c], 3)
Drawn(v, o, s) == IF o.kind = "circle" THEN IsCircle(v, o.at[s], o.rad) ELSE IsPoly(v, o.pts[s])
\* a scheduler shows the frames planned in, too, and the way on the grid
Plan(r, s) == r.plans[r.over[Over(s, Len(r.over))]]
Frames(r, s) == IF r.sched THEN Plan(r, s).frames ELSE <<>>
ShowsOutlines(r, q, s) == Len(q.surfaces) = Len(r.things) + Len(Frames(r, s))
    /\ (\A m \in 1..Len(Frames(r, s)) : \E k \in 1..Len(q.surfaces) : IsPoly(q.surfaces[k], Frames(r, s)[m]))
    /\ \A m \in 1..Len(r.things) : \E k \in 1..Len(q.surfaces) : Drawn(q.surfaces[k], r.things[m], s)
ShowsPaths(r, q, s) == LET p(v) == r.plans[r.over[Over(s, Len(r.over))]].veh[v].pose IN
    LET way == IF r.sched THEN Plan(r, s).path ELSE <<<<>>, <<>>>> IN
    Len(q.lines) = 2*r.nv + (IF way[1] = <<>> THEN 0 ELSE 1)
    /\ (way[1] = <<>> \/ \E g \in 1..Len(q.lines) : SameLine(q.lines[g], way[1], way[2], 2, 2))
    /\ \A v \in 1..r.nv :
       /\ \E g \in 1..Len(q.lines) : SameLine(q.lines[g], p(v)[1], p(v)[2], 2, 2)
       /\ \E g \in 1..Len(q.lines) : SameLine(q.lines[g], Cut(r.pose[v][1], s), Cut(r.pose[v][2], s), 2, 2)
Labels(q) == q.labels = <<>> \/ Cat([c \in 1..Len(q.axes) |-> Need(q.axes[c].label = q.labels[c], "figure.label", <<q.axes[c].label, q.labels[c]>>)]) = <<>>
JudgeAsk(r, q) ==
    \* the run as it was when the figure was drawn
    LET rr == [r EXCEPT !.times = Cut(r.times, q.L), !.over = Cut(r.over, q.L - 1)]
        want == Wanted(rr.times, q.how, q.arg)
    IN IF q.fig = "signal" THEN
          Need(\E s \in want : ShowsSignal(rr, q, s), "figure.signal", <<q.how, q.arg, want, {s \in 1..q.L : ShowsSignal(rr, q, s)}, q.what>>)
          \o Need(Labels(q), "figure.label", q.labels)
       ELSE Need(\E s \in want : ShowsOutlines(rr, q, s), "figure.outlines", <<q.how, q.arg, want, {s \in 1..q.L : ShowsOutlines(rr, q, s)}, Len(q.surfaces)>>)
          \o Need(\E s \in want : ShowsPaths(rr, q, s), "figure.paths", <<q.how, q.arg, want, {s \in 1..q.L : ShowsPaths(rr, q, s)}, Len(q.lines)>>)
JudgeMovie(r, q) ==
    LET rr == [r EXCEPT !.times = Cut(r.times, q.L), !.over = Cut(r.over, q.L - 1)]
        shown == [k \in 1..Len(q.frames) |-> {s \in 1..q.L : ShowsSignal(rr, q.frames[k], s)}]
    IN Need(MovieOK(shown, q.L, q.n), "movie.frames", <<q.L, q.n, shown>>)
\* the residuals of every iteration so far, in the order of the labels
JudgeResiduals(q) == Need(Len(q.axes) = Len(q.want) /\ \A k \in 1..Len(q.axes) : Len(q.axes[k]) = 1 /\
        SameLine(q.axes[k][1], [m \in 1..Len(q.want[k]) |-> m], q.want[k], 0, 2), "figure.residuals", <<Len(q.want[1]), [k \in 1..Len(q.axes) |-> Len(q.axes[k])]>>)
\* ---- how a vehicle draws itself: as it does at rest in the origin, moved to where it is, turned as it is turned.  The wheels
\* that steer (in front, of an AGV at the back) turn about their own centre; a tractor is drawn where it is, in front of its trailer.
Mid(v) == <<FoldLeft(LAMBDA a, b : a + b[1], 0, v) \div Len(v), FoldLeft(LAMBDA a, b : a + b[2], 0, v) \div Len(v)>>
Turned(p, t) == <<(t.c*p[1] - t.s*p[2]) \div 1000, (t.s*p[1] + t.c*p[2]) \div 1000>>
Moved(p, t, at) == LET q == Turned(p, t) IN <<q[1] + at[1], q[2] + at[2]>>
Steers(kind, m) == (kind = "Bicycle" /\ m[1] > 10) \/ (kind = "AGV" /\ m[1] < -10)
\* first the roll, then the pitch
Tilted(p, w) == LET y == w.roll.c*p[2] - w.roll.s*p[3] z == (w.roll.s*p[2] + w.roll.c*p[3]) \div 1000 IN
    <<(w.pitch.c*p[1] + w.pitch.s*z) \div 1000 + w.at[1], y \div 1000 + w.at[2], (w.pitch.c*z - w.pitch.s*p[1]) \div 1000 + w.at[3]>>
Own(q, k) == q.kind # "Trailer" \/ k <= q.own \/ k > Len(q.home) - q.own
PlaceOf(q, w, k, p) ==
    IF q.three THEN Tilted(p, w)
    ELSE IF ~Own(q, k) THEN Moved(<<p[1] - q.hitch, p[2]>>, w.lead.turn, w.lead.at)
    ELSE LET m == Mid(q.home[k]) IN
         IF Steers(q.kind, m) THEN LET d == Turned(<<p[1] - m[1], p[2] - m[2]>>, w.steer) IN Moved(<<d[1] + m[1], d[2] + m[2]>>, w.turn, w.at)
         ELSE Moved(p, w.turn, w.at)
SameOutline(q, w, k) == LET v == w.drawn[k] h == q.home[k] IN Len(v) = Len(h)
    /\ \A m \in 1..Len(h) : LET p == PlaceOf(q, w, k, h[m]) IN \A c \in 1..Len(p) : Close(v[m][c], p[c], 8)
JudgeBody(q) == Cat([x \in 1..Len(q.views) |-> LET w == q.views[x] IN
    Need(Len(w.drawn) = Len(q.home) /\ Len(q.home) > 0 /\ \A k \in 1..Len(q.home) : SameOutline(q, w, k), "figure.body",
         <<q.kind, x, Len(q.views), {k \in 1..Min2(Len(w.drawn), Len(q.home)) : ~SameOutline(q, w, k)}>>)])
Judge(r) == Cat([k \in 1..Len(r.asks) |-> IF r.asks[k].fig = "body" THEN JudgeBody(r.asks[k]) ELSE IF r.asks[k].fig = "residuals" THEN JudgeResiduals(r.asks[k]) ELSE IF r.asks[k].fig = "movie" THEN JudgeMovie(r, r.asks[k]) ELSE JudgeAsk(r, r.asks[k])])
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
===============================================================================
