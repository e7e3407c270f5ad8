---------------------------- MODULE DrawingTrace ----------------------------
(* Judges sessions with the real assistant, drawings that it read, and the   *)
(* G-code that it made of drawings.  Observed positions in 0.01 mm.          *)
EXTENDS Verdict, Drawing
Tup(s, o) == <<o.k, o.x, o.y, o.w, o.h, o.r, o.vx, o.vy, IF o.b THEN 1 ELSE 0>>
LOCAL Is(o, t) == /\ o[1] = t[1] /\ o[9] = t[9]
                  /\ \A k \in 2..8 : Close(100*o[k], t[k], 1)
\* as many of each
Bag(want, got, same(_, _)) == /\ Len(want) = Len(got)
                              /\ \A k \in 1..Len(want) : Cardinality({j \in 1..Len(got) : same(want[k], got[j])})
                                                         = Cardinality({j \in 1..Len(want) : want[j] = want[k]})
\* the picture of an obstacle: corners on the canvas, in 0.01 pixels
Drawn(f, o) == LET w == IF o.k = 0 THEN o.w ELSE 2*o.r IN LET h == IF o.k = 0 THEN o.h ELSE 2*o.r IN
   <<o.k, (100*o.x) \div f.px - 100*f.X - (50*w) \div f.px, 100*(f.Y + f.H) - (100*o.y) \div f.px - (50*h) \div f.px, (100*w) \div f.px, (100*h) \div f.px>>
Seen(want, got) == want[1] = got[1] /\ \A k \in 2..5 : Close(want[k], got[k], 2)
PictureOf(s) == [k \in 1..Len(s.obs) |-> Drawn(s.f, s.obs[k])]
Shows(s, e) == Bag(PictureOf(s), e.pic, Seen)
Marks(s, e) == Len(e.marks) = Len(s.marks) /\ \A k \in 1..Len(s.marks) : Close(e.marks[k][1], 100*s.marks[k][1], 1) /\ Close(e.marks[k][2], 100*s.marks[k][2], 1)
\* states in which an action may leave the assistant
After(s, e) ==
   CASE e.a = "open" -> {Blank(Frame(e.px, e.W, e.H, e.X, e.Y, e.nx, e.ny), s.disk)}
     [] e.a = "draw" -> {Draw(s, e.k, e.w, e.h, e.r, e.v, e.b, e.x, e.y)}
     [] e.a = "pick" -> Picks(s, e.x, e.y)
     [] e.a = "move" -> Moves(s, e.d)
     [] e.a = "remove" -> Removals(s)
     [] e.a = "mark" -> {Mark(s, e.x, e.y)}
     [] e.a = "ready" -> {IF Ready(s) /\ e.save THEN Save(s) ELSE s}
     [] e.a = "load" -> {Load(s)}
     [] e.a = "cancel" -> {s}
     [] e.a = "svg" -> LET f == Frame(e.px, e.W, e.H, 0, 0, e.nx, e.ny) IN
                       LET o == FoldLeft(LAMBDA acc, el : acc \o Obstacles(f, el), <<>>, e.els) IN
                       {[s EXCEPT !.f = f, !.sel = 0, !.obs = o, !.pic = Len(o)]}
     [] OTHER -> {s}
LOCAL CloseP(p, q) == Close(p[1], q[1], 1) /\ Close(p[2], q[2], 1)
Built(s, e) ==
   IF ~Ready(s) THEN Need(e.env = <<>>, "draw.ready.early", Len(s.marks))
   ELSE IF e.env = <<>> THEN <<B("draw.ready.nothing", Len(s.marks))>>
   ELSE Need(Bag([k \in 1..Len(s.obs) |-> Tup(s, s.obs[k])], e.env[1], Is), "draw.environment", <<[k \in 1..Len(s.obs) |-> Tup(s, s.obs[k])], e.env[1]>>)
        \o Need(CloseP(e.env[2], <<50*(Low(s.f)[1] + High(s.f)[1]), 50*(Low(s.f)[2] + High(s.f)[2])>>), "draw.room.place", <<e.env[2], Low(s.f), High(s.f)>>)
        \o Need(CloseP(e.env[3], <<100*s.f.W*s.f.px, 100*s.f.H*s.f.px>>), "draw.room.size", <<e.env[3], s.f.W, s.f.H, s.f.px>>)
Ends(s, e) == \* start and goal that the assistant hands out: those marked, brought in if they are outside
   Need(Len(e.out) = Len(s.marks) /\ \A k \in 1..Len(e.out), d \in 1..2 :
        IF Outside(s.f, s.marks[k], d) THEN e.out[k][d] >= 100*(Low(s.f)[d] + e.m) /\ e.out[k][d] <= 100*(High(s.f)[d] - e.m)
        ELSE Inside(s.f, s.marks[k], d, e.m) => Close(e.out[k][d], 100*s.marks[k][d], 1), "draw.ends", <<e.out, s.marks, e.m, Low(s.f), High(s.f)>>)
Grid(s, e) == Need(e.grid = <<s.f.nx*s.f.ny, s.f.nx*s.f.cw, s.f.ny*s.f.ch>>, "draw.grid", <<e.grid, s.f>>)
\* in which states the assistant may be after each action (a click on a border leaves two)
RECURSIVE Run(_, _, _)
Run(h, S, k) ==
   IF k > Len(h.events) THEN <<>>
   ELSE LET e == h.events[k] IN LET s == CHOOSE x \in S : TRUE IN
        IF e.died # "" THEN <<B("draw.died." \o e.a, <<k, e.died>>)>>
        ELSE IF e.a = "ends" THEN Ends(s, e) \o Run(h, S, k+1)    \* it moves the marks: the last question of a session
        ELSE LET A == UNION {After(x, e) : x \in S} IN
             LET OK == {t \in A : Shows(t, e)} IN
             IF OK = {} THEN <<B("draw.picture." \o e.a, <<k, {PictureOf(t) : t \in A}, e.pic>>)>>
             ELSE LET t == CHOOSE x \in OK : TRUE IN
                  Need(Marks(t, e), "draw.marks." \o e.a, <<k, t.marks, e.marks>>)
                  \o (IF e.a = "ready" THEN Built(t, e) ELSE <<>>)
                  \o (IF e.a \in {"open", "load", "svg"} THEN Grid(t, e) ELSE <<>>)
                  \o Run(h, OK, k+1)

\* G-code: what the commands trace, from the first position on
RECURSIVE Traced(_, _, _)
Traced(cs, k, p) ==
   IF k > Len(cs) THEN <<>>
   ELSE LET c == cs[k] IN LET q == <<c.x, c.y>> IN
        (CASE c.g = 0 -> <<>>
           [] c.g = 1 -> <<[k |-> "line", p |-> p, q |-> q, c |-> <<0, 0>>]>>
           [] c.g = 2 -> <<[k |-> "cw", p |-> p, q |-> q, c |-> <<p[1] + c.i, p[2] + c.j>>]>>
           [] c.g = 3 -> <<[k |-> "ccw", p |-> p, q |-> q, c |-> <<p[1] + c.i, p[2] + c.j>>]>>)
        \o Traced(cs, k+1, q)
Near(p, q, tol) == Close(p[1], q[1], tol) /\ Close(p[2], q[2], tol)
\* what was drawn (downwards on paper), turned upwards
Up(p) == <<p[1], -p[2]>>
JudgeCode(h) ==
   LET T == Traced(h.commands, 1, <<0, 0>>) IN
   Need(h.died = "", "code.died", h.died)
   \o (IF h.died # "" THEN <<>> ELSE
       Need(Len(T) = Len(h.drawn), "code.pieces", <<Len(T), Len(h.drawn)>>)
       \o ForEach(Min2(Len(T), Len(h.drawn)), LAMBDA k :
          LET d == h.drawn[k] IN LET g == T[k] IN
          Need(d.k = g.k, "code.kind", <<k, d.k, g.k>>)
          \o Need(Near(g.p, Up(d.p), 20) /\ Near(g.q, Up(d.q), 20), "code.points", <<k, g.p, Up(d.p), g.q, Up(d.q)>>)
          \o (IF d.k = "line" THEN <<>> ELSE Need(Near(g.c, Up(d.c), 200), "code.centre", <<k, g.c, Up(d.c)>>))))
Judge(h) == IF h.type = "session" THEN Run(h, {Blank(Frame(1, 1, 1, 0, 0, 1, 1), Nothing)}, 1) ELSE JudgeCode(h)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
=============================================================================
