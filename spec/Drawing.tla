------------------------------ MODULE Drawing ------------------------------
(* The graphical assistant: a frame is drawn on a canvas, the user puts      *)
(* obstacles in it with the mouse, picks one up, moves it, removes it, marks *)
(* where to start and where to go, and takes the environment home.           *)
(* Lengths in mm, canvas coordinates in pixels (from the top left corner,    *)
(* downwards), world coordinates upwards.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
LOCAL Ceil(a, b) == (a + b - 1) \div b
\* a frame: px = size of a pixel [mm], W, H its size [pixels], X, Y where its top left corner is [pixels], nx, ny cells
Frame(px, W, H, X, Y, nx, ny) == [px |-> px, W |-> W, H |-> H, X |-> X, Y |-> Y, cw |-> Ceil(W, nx), ch |-> Ceil(H, ny), nx |-> nx, ny |-> ny]
ToWorld(f, cx, cy) == <<(cx + f.X)*f.px, (f.Y + f.H - cy)*f.px>>
ToCanvas(f, x, y) == <<x \div f.px - f.X, f.Y + f.H - y \div f.px>>
Snap1(c, cell) == ((2*c + cell) \div (2*cell))*cell
Snap(f, cx, cy) == <<Snap1(cx, f.cw), Snap1(cy, f.ch)>>
\* the corners of the frame in the world
Low(f) == <<f.X*f.px, f.Y*f.px>>
High(f) == <<(f.X + f.W)*f.px, (f.Y + f.H)*f.px>>

\* an obstacle: k = 0 rectangle, 1 circle; centre; w, h or r; velocity; whether it bounces
Rect(x, y, w, h, v, b) == [k |-> 0, x |-> x, y |-> y, w |-> w, h |-> h, r |-> 0, vx |-> v[1], vy |-> v[2], b |-> b]
Disc(x, y, r, v, b) == [k |-> 1, x |-> x, y |-> y, w |-> 0, h |-> 0, r |-> r, vx |-> v[1], vy |-> v[2], b |-> b]
LOCAL Sq(x) == x*x
Within(o, p, d) == IF o.k = 0 THEN 2*Ab(p[1] - o.x) <= o.w + 2*d /\ 2*Ab(p[2] - o.y) <= o.h + 2*d
                              ELSE Sq(p[1] - o.x) + Sq(p[2] - o.y) <= Sq(o.r + d)
Covers(o, p) == Within(o, p, -1)     \* without its border
Touches(o, p) == Within(o, p, 1)
\* what may be drawn
Fits(f, k, w, h, r) == IF k = 0 THEN w > 0 /\ h > 0 /\ w < f.W*f.px /\ h < f.H*f.px
                               ELSE r > 0 /\ r < f.W*f.px /\ r < f.H*f.px

\* the state: frame, obstacles in the order in which they came, the one picked up (0: none), marks (at most the last
\* two), how many of the obstacles came from a picture (in an order of their own), and what is on disk
Blank(f, disk) == [f |-> f, pic |-> 0, obs |-> <<>>, sel |-> 0, marks |-> <<>>, disk |-> disk]
Nothing == [f |-> Frame(1, 1, 1, 0, 0, 1, 1), pic |-> 0, obs |-> <<>>, marks |-> <<>>]
Draw(s, k, w, h, r, v, b, cx, cy) ==
   LET p == LET q == Snap(s.f, cx, cy) IN ToWorld(s.f, q[1], q[2]) IN
   IF Fits(s.f, k, w, h, r) THEN [s EXCEPT !.obs = Append(s.obs, IF k = 0 THEN Rect(p[1], p[2], w, h, v, b) ELSE Disc(p[1], p[2], r, v, b))] ELSE s
\* a click picks up one of those below it; on a border it may or may not
Picks(s, cx, cy) == LET p == LET q == Snap(s.f, cx, cy) IN ToWorld(s.f, q[1], q[2]) IN
   LET sure == {j \in 1..Len(s.obs) : Covers(s.obs[j], p)} IN
   LET some == {j \in 1..Len(s.obs) : Touches(s.obs[j], p)} IN
   {[s EXCEPT !.sel = j] : j \in some \cup (IF sure = {} THEN {0} ELSE {})}
\* the one that a button works on: the one picked up, or else the last one (none if there are none)
Targets(s) == IF s.sel > 0 THEN {s.sel} ELSE IF Len(s.obs) > s.pic THEN {Len(s.obs)} ELSE 1..Len(s.obs)
Step(f, d) == CASE d = "up" -> <<0, f.ch*f.px>> [] d = "down" -> <<0, -f.ch*f.px>> [] d = "left" -> <<-f.cw*f.px, 0>> [] d = "right" -> <<f.cw*f.px, 0>>
Moves(s, d) == IF s.obs = <<>> THEN {s} ELSE
   LET m == Step(s.f, d) IN {[s EXCEPT !.obs[j].x = @ + m[1], !.obs[j].y = @ + m[2]] : j \in Targets(s)}
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Removals(s) == IF s.obs = <<>> THEN {s} ELSE
   {[s EXCEPT !.obs = Without(s.obs, j), !.sel = 0, !.pic = IF j <= s.pic THEN s.pic - 1 ELSE s.pic] : j \in Targets(s)}
Mark(s, cx, cy) == LET m == Append(s.marks, ToWorld(s.f, cx, cy)) IN [s EXCEPT !.marks = IF Len(m) > 2 THEN Tail(m) ELSE m]
Ready(s) == Len(s.marks) = 2
Save(s) == [s EXCEPT !.disk = [f |-> s.f, pic |-> s.pic, obs |-> s.obs, marks |-> s.marks]]
Load(s) == [s EXCEPT !.f = s.disk.f, !.pic = s.disk.pic, !.obs = s.disk.obs, !.marks = s.disk.marks, !.sel = 0]
\* start and goal, a margin away from the border if the user marked a place outside
Inside(f, p, d, m) == p[d] > Low(f)[d] + m /\ p[d] < High(f)[d] - m
Outside(f, p, d) == p[d] < Low(f)[d] \/ p[d] > High(f)[d]

\* a picture: elements in half pixels, within groups that translate them
Shift(ts) == LET RECURSIVE sum(_)
                 sum(k) == IF k = 0 THEN <<0, 0>> ELSE LET r == sum(k-1) IN <<r[1] + ts[k][1], r[2] + ts[k][2]>>
             IN sum(Len(ts))
Half(f, c) == (c*f.px) \div 2
Still == <<0, 0>>
FromBox(f, x2, y2, w, h) == \* twice the centre
   Rect(Half(f, x2) \div 2, f.H*f.px - Half(f, y2) \div 2, Half(f, w), Half(f, h), Still, FALSE)
Stroke(f, p, q, s) == FromBox(f, p[1] + q[1], p[2] + q[2], IF p[1] = q[1] THEN s ELSE Ab(p[1] - q[1]), IF p[1] = q[1] THEN Ab(p[2] - q[2]) ELSE s)
Obstacles(f, e) ==
   LET t == Shift(e.t) IN
   CASE e.k = "rect" -> <<FromBox(f, 2*(e.x + t[1]) + e.w, 2*(e.y + t[2]) + e.h, e.w, e.h)>>
     [] e.k = "circle" -> <<Disc(Half(f, e.x + t[1]), f.H*f.px - Half(f, e.y + t[2]), Half(f, e.r), Still, FALSE)>>
     [] e.k = "line" -> [j \in 1..(Len(e.p) - 1) |-> LET at(n) == <<e.p[n][1] + t[1], e.p[n][2] + t[2]>> IN Stroke(f, at(j), at(j+1), e.s)]
=============================================================================
