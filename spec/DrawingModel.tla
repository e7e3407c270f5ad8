---------------------------- MODULE DrawingModel ----------------------------
(* What the assistant guarantees, for every sequence of at most Depth        *)
(* actions in a small frame.                                                 *)
EXTENDS Drawing, TLC
CONSTANTS Depth, Stale   \* Stale: a load leaves what was picked up picked up
VARIABLES s, n, last
vars == <<s, n, last>>
F == Frame(10, 6, 4, 2, 1, 3, 2)
G == Frame(20, 4, 4, 0, 0, 2, 2)
Cx == {0, 2, 5}
Cy == {0, 3}
Init == s \in {Blank(F, Nothing), Blank(G, Nothing)} /\ n = 0 /\ last = [a |-> "open", before |-> s]
Act(name, t) == s' = t /\ n' = n + 1 /\ last' = [a |-> name, before |-> s]
Next == /\ n < Depth
        /\ \/ \E x \in Cx, y \in Cy : Act("rect", Draw(s, 0, 30, 20, 0, <<1, 0>>, TRUE, x, y))
           \/ \E x \in Cx, y \in Cy : Act("disc", Draw(s, 1, 0, 0, 15, Still, FALSE, x, y))
           \/ Act("large", Draw(s, 1, 0, 0, 80, Still, FALSE, 2, 2))
           \/ \E x \in Cx, y \in Cy : \E t \in Picks(s, x, y) : Act("pick", t)
           \/ \E d \in {"up", "left"} : \E t \in Moves(s, d) : Act("move", t)
           \/ \E t \in Removals(s) : Act("remove", t)
           \/ \E x \in Cx : Act("mark", Mark(s, x, 1))
           \/ Ready(s) /\ Act("save", Save(s))
           \/ s.disk # Nothing /\ Act("load", LET t == Load(s) IN IF Stale THEN [t EXCEPT !.sel = s.sel] ELSE t)
Spec == Init /\ [][Next]_vars
\* the picked one exists
Alive == s.sel \in 0..Len(s.obs)
\* what was put down with the mouse is on the corners of the cells
OnGrid == \A j \in 1..Len(s.obs) : LET c == ToCanvas(s.f, s.obs[j].x, s.obs[j].y) IN c[1] % s.f.cw = 0 /\ c[2] % s.f.ch = 0
\* the picture and the world are the same place
There == \A x \in Cx, y \in Cy : LET p == ToWorld(s.f, x, y) IN ToCanvas(s.f, p[1], p[2]) = <<x, y>>
UpIsUp == ToWorld(s.f, 0, 0) = <<Low(s.f)[1], High(s.f)[2]>> /\ ToWorld(s.f, s.f.W, s.f.H) = <<High(s.f)[1], Low(s.f)[2]>>
Two == Len(s.marks) <= 2
Fit == \A j \in 1..Len(s.obs) : Fits(s.f, s.obs[j].k, s.obs[j].w, s.obs[j].h, s.obs[j].r)
\* one action touches one obstacle
One == LET b == last.before.obs IN LET a == s.obs IN
   CASE last.a \in {"rect", "disc"} -> SubSeq(a, 1, Len(b)) = b /\ Len(a) = Len(b) + 1
     [] last.a \in {"large", "pick", "mark", "save"} -> a = b
     [] last.a = "move" -> Len(a) = Len(b) /\ Cardinality({j \in 1..Len(a) : a[j] # b[j]}) = IF b = <<>> THEN 0 ELSE 1
     [] last.a = "remove" -> Len(a) = IF b = <<>> THEN 0 ELSE Len(b) - 1
     [] last.a = "load" -> a = s.disk.obs /\ s.marks = s.disk.marks /\ s.f = s.disk.f
     [] OTHER -> TRUE
=============================================================================
