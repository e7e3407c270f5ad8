----------------------------- MODULE FrameModel -----------------------------
(* The chain of corridor frames along a path, for all paths and obstacles of *)
(* a small room: a frame is the hull of start and goal if that is free, else *)
(* it takes in waypoint after waypoint; it then grows to each side; its end  *)
(* is the last waypoint taken in, or a point short of it.  The next frame    *)
(* starts at the end of the last.                                            *)
EXTENDS Frames
CONSTANTS N,      \* the room is [0, N] x [0, N]
          M,      \* the vehicle's size with margin
          Steps,  \* longest path
          Drop    \* "none", or a mutation: "wall" | "end" | "margin"
VARIABLES obs, path, start, L, idx, end, phase
vars == <<obs, path, start, L, idx, end, phase>>
Room == <<0, 0, N, N>>
Pts == {<<x, y>> : x \in {k \in M..(N-M) : k % 2 = 0}, y \in {k \in M..(N-M) : k % 2 = 0}}
Boxes == {<<x, y, x+1, y+1>> : x \in 0..(N-1), y \in 0..(N-1)}
Sets == {{b} : b \in Boxes} \cup {{b, <<x, y, x+3, y+1>>} : b \in Boxes, x \in {0, N-3, 3}, y \in {1, 4, N-1}}
D(p, q) == (p[1]-q[1])*(p[1]-q[1]) + (p[2]-q[2])*(p[2]-q[2])
Goal == path[Len(path)]
OK(b) == Free(b, obs, 0)
Init == /\ obs \in Sets /\ start \in Pts /\ path = <<start>> /\ phase = "path"
        /\ OK(Hull(start, start, M)) /\ L = Room /\ idx = 1 /\ end = start
\* planned so that the vehicle can go from each waypoint to the next
Extend == /\ phase = "path" /\ Len(path) < Steps
          /\ \E q \in Pts : /\ D(q, Goal) = 4 /\ OK(Hull(Goal, q, M))
                            /\ \A k \in 1..(Len(path)-1) : D(path[k], q) > 4   \* planners do not go round in circles
                            /\ path' = Append(path, q)
          /\ UNCHANGED <<obs, start, L, idx, end, phase>>
Closest(p) == CHOOSE k \in 1..Len(path) : \A j \in 1..Len(path) : D(path[k], p) < D(path[j], p) \/ (D(path[k], p) = D(path[j], p) /\ k <= j)
\* take in waypoints from k on; the box and the last one taken in
RECURSIVE Take(_, _)
Take(b, k) == IF k > Len(path) THEN <<b, k-1>>
              ELSE LET c == Join(b, Hull(path[k], path[k], M)) IN
                   IF OK(c) THEN Take(c, k+1)
                   ELSE IF Clear(path[k], b, 1) THEN Take(b, k+1) ELSE <<b, k-1>>
Base == /\ phase \in {"path", "next"} /\ Len(path) > 1
        /\ LET box == Hull(start, start, M) all == Hull(start, Goal, M) IN
           IF OK(all) THEN L' = all /\ idx' = Len(path)
           ELSE LET r == Take(box, Closest(start)) IN L' = r[1] /\ idx' = r[2]
        /\ phase' = "grow1" /\ UNCHANGED <<obs, path, start, end>>
Legal(b) == OK(b) /\ (Drop = "wall" \/ Within(b, Room, 0))
RECURSIVE Grown(_, _)
Grown(b, s) == LET c == Grow(b, s, 1) IN IF Legal(c) /\ c[3] - c[1] <= N + 1 /\ c[4] - c[2] <= N + 1 THEN Grown(c, s) ELSE b
Side(s, from, to) == /\ phase = from /\ L' = Grown(L, s) /\ phase' = to /\ UNCHANGED <<obs, path, start, idx, end>>
\* waypoints further on that happen to be inside
RECURSIVE Further(_)
Further(k) == IF k < Len(path) /\ Clear(path[k+1], L, 1) THEN Further(k+1) ELSE k
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
End == /\ phase = "end"
       /\ LET k == Further(idx) w == path[k] IN
          /\ idx' = k
          /\ end' = IF Drop = "end" THEN w ELSE <<Clamp(w[1], L[1]+M, L[3]-M), Clamp(w[2], L[2]+M, L[4]-M)>>
       /\ phase' = "done" /\ UNCHANGED <<obs, path, start, L>>
Next1 == /\ phase = "done" /\ end # Goal /\ start' = end /\ phase' = "next" /\ UNCHANGED <<obs, path, L, idx, end>>
Next == Extend \/ Base \/ Side(1, "grow1", "grow2") \/ Side(2, "grow2", "grow3") \/ Side(3, "grow3", "grow4") \/ Side(4, "grow4", "end") \/ End \/ Next1
Spec == Init /\ [][Next]_vars /\ WF_vars(Base \/ Side(1, "grow1", "grow2") \/ Side(2, "grow2", "grow3") \/ Side(3, "grow3", "grow4") \/ Side(4, "grow4", "end") \/ End \/ Next1)
Done == phase = "done"
InRoom == Done => Within(L, Room, 0)
NoObstacle == Done => OK(L)
StartClear == Done => Clear(start, L, IF Drop = "margin" THEN M+1 ELSE M)
EndClear == Done => Clear(end, L, M)
Progress == Done => end # start
GoalIf == (Done /\ OK(Hull(start, Goal, M))) => end = Goal
Widest == Done => \A s \in 1..4 : ~(OK(Grow(L, s, 1)) /\ Within(Grow(L, s, 1), Room, 0))
\* the frames of the chain overlap, by at least the vehicle
Chain == [][phase = "next" /\ phase' = "grow1" => Clear(end, L, M) /\ Clear(end, L', M)]_vars
Reaches == (phase = "grow1") ~> (Done /\ end = Goal)
=============================================================================
