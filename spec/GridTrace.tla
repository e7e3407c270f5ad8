------------------------------ MODULE GridTrace ------------------------------
(* Judges recorded uses of the real planner.                                  *)
(* record kinds:                                                              *)
(*  "q"   a grid W x H with blocked cells occ and the answers to queries      *)
(*        [s, g, res ("path" | "nopath" | "error"), path (cell indices)]      *)
(*  "snap"  world point -> cell, scaled integers                              *)
(*  "occ"   obstacles (axis aligned boxes, scaled) -> blocked cells           *)
EXTENDS Verdict, GridPath

PathBroken(W, H, occ, q) ==
    LET p == q.path IN
    Cat(<< Need(Len(p) >= 1 /\ p[1] = q.s, "path.starts-at-start", <<q.s, p>>),
           Need(Len(p) >= 1 /\ p[Len(p)] = q.g, "path.ends-at-goal", <<q.g, p>>),
           Need(\A k \in 1..Len(p) : p[k] \in Free(W, H, occ), "path.cells-free", <<q.s, q.g, p>>),
           Need(\A k \in 1..(Len(p)-1) : Move(W, H, occ, p[k], p[k+1]), "path.moves-allowed", <<q.s, q.g, p>>),
           Need(Cardinality(ToSet(p)) = Len(p), "path.no-repeats", p) >>)
QBroken(W, H, occ, reach, q) ==
    IF q.res = "error" THEN <<B("search.ends-cleanly", <<q.s, q.g>>)>>
    ELSE IF q.res = "nopath"
         THEN Need(q.g \notin reach[q.s], "search.finds-existing-path", <<q.s, q.g>>)
         ELSE Need(q.g \in reach[q.s], "search.invents-path", <<q.s, q.g>>)
              \o PathBroken(W, H, occ, q)
JudgeQ(r) ==
    LET occ == ToSet(r.occ)
        starts == {r.qs[k].s : k \in 1..Len(r.qs)}
        reach == [s \in starts |-> Reach(r.W, r.H, occ, s)]
    IN ForEach(Len(r.qs), LAMBDA k : QBroken(r.W, r.H, occ, reach, r.qs[k]))

\* squared distances, in scaled units: cell centre of <<c,r>> is origin + (2c+1, 2r+1) * half cell
CX(r, c) == r.x0 + (2*c + 1) * r.hw
CY(r, c) == r.y0 + (2*c + 1) * r.hh
D2(r, cell, p) == LET dx == CX(r, cell[1]) - p[1]
                      dy == CY(r, cell[2]) - p[2]
                  IN dx*dx + dy*dy
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* the point moved into the room (a start outside of it is taken to the nearest cell)
JudgeSnap(r) ==
    LET occ == ToSet(r.occ)
        all == Cells(r.W, r.H)
        home == {c \in all : \A d \in all : D2(r, c, r.p) <= D2(r, d, r.p) + r.tol}
        hfree == home \ occ
        nbr(h) == {c \in Free(r.W, r.H, occ) : GAbs(c[1]-h[1]) <= 1 /\ GAbs(c[2]-h[2]) <= 1}
        D(a, b) == LET dx == 2*r.hw*(a[1]-b[1])
                       dy == 2*r.hh*(a[2]-b[2]) IN dx*dx + dy*dy
        ok(c) == IF c \notin all THEN FALSE
                 ELSE IF \E h \in home : h \notin occ /\ h = c THEN TRUE
                 ELSE \E h \in home \cap occ :
                        \/ nbr(h) = {} /\ c = h
                        \/ c \in nbr(h) /\ \A d \in nbr(h) : D(h, c) <= D(h, d)
    IN Need(r.cell \in all, "snap.in-grid", <<r.p, r.cell>>)
       \o Need(ok(r.cell), "snap.nearest-free-cell", <<r.p, r.cell, home>>)

\* a cell must be blocked iff its interior meets the interior of a stationary obstacle's
\* bounding box, grown by the vehicle's size; contact closer than tol decides nothing
Overlap(r, c, b, t) ==
    /\ r.x0 + 2*c[1]*r.hw + t < b[3] /\ b[1] + t < r.x0 + 2*(c[1]+1)*r.hw
    /\ r.y0 + 2*c[2]*r.hh + t < b[4] /\ b[2] + t < r.y0 + 2*(c[2]+1)*r.hh
\* a body has a core (box it certainly fills, maybe empty) and a hull (box it certainly stays in)
JudgeOcc(r) ==
    LET all == Cells(r.W, r.H)
        got == ToSet(r.blocked)
        must == {c \in all : \E k \in 1..Len(r.boxes) : Overlap(r, c, r.boxes[k], r.tol)}
        may == {c \in all : \E k \in 1..Len(r.boxes) : Overlap(r, c, r.boxes[k], -r.tol)}
    IN Need(must \subseteq got, "occupied.all-cells-under-obstacle", must \ got)
       \o Need(got \subseteq may, "occupied.only-cells-under-obstacle", got \ may)
Judge(r) == IF r.kind = "q" THEN JudgeQ(r)
            ELSE IF r.kind = "snap" THEN JudgeSnap(r) ELSE JudgeOcc(r)
TraceNext == TraceStep(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceVerdict == WriteVerdict
=============================================================================
