------------------------------- MODULE AStar -------------------------------
(* The search itself: one action per expansion, ties between equally cheap   *)
(* open nodes left open.  Checked over every occupancy of a small grid.      *)
EXTENDS GridPath, TLC
CONSTANTS W, H, CW, CH, CD     \* cells; cost of a horizontal, vertical, diagonal move
VARIABLES occ, start, goal, cur, open, closed, par, g, status
vars == <<occ, start, goal, cur, open, closed, par, g, status>>
All == Cells(W, H)
None == <<-1, -1>>
StepCost(a, b) == IF a[1] # b[1] /\ a[2] # b[2] THEN CD ELSE IF a[1] # b[1] THEN CW ELSE CH
HCost(a) == GAbs(goal[1]-a[1])*CW + GAbs(goal[2]-a[2])*CH
Init == /\ occ \in SUBSET All
        /\ start \in All \ occ /\ goal \in All \ occ
        /\ cur = start /\ open = {} /\ closed = {start}
        /\ par = [c \in All |-> None] /\ g = [c \in All |-> 0]
        /\ status = IF start = goal THEN "found" ELSE "run"
\* neighbours of the current node enter the open list, or get a cheaper parent
Expand == LET nb == Succ(W, H, occ, cur)
              new == nb \ (open \cup closed)
              better == {n \in nb \cap open : g[cur] + StepCost(cur, n) <= g[n]}
              upd == new \cup better
          IN /\ open # {} \/ new # {}
             /\ LET par2 == [c \in All |-> IF c \in upd THEN cur ELSE par[c]]
                    g2 == [c \in All |-> IF c \in upd THEN g[cur] + StepCost(cur, c) ELSE g[c]]
                    open2 == open \cup new
                IN /\ \E n \in open2 : /\ \A m \in open2 : g2[n] + HCost(n) <= g2[m] + HCost(m)
                                       /\ cur' = n /\ open' = open2 \ {n} /\ closed' = closed \cup {n}
                                       /\ status' = IF n = goal THEN "found" ELSE "run"
                   /\ par' = par2 /\ g' = g2
Fail == /\ open = {} /\ Succ(W, H, occ, cur) \subseteq closed
        /\ status' = "nopath" /\ UNCHANGED <<cur, open, closed, par, g>>
Next == status = "run" /\ (Expand \/ Fail) /\ UNCHANGED <<occ, start, goal>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Chain(_, _)
Chain(c, n) == IF c = start \/ n = 0 THEN <<c>> ELSE Append(Chain(par[c], n-1), c)
\* the properties
PathValid == status = "found" =>
    LET p == Chain(goal, W*H) IN
        /\ p[1] = start /\ p[Len(p)] = goal
        /\ \A k \in 1..(Len(p)-1) : Move(W, H, occ, p[k], p[k+1])
        /\ Cardinality({p[k] : k \in 1..Len(p)}) = Len(p)
Complete == status = "nopath" => goal \notin Reach(W, H, occ, start)
Sound == status = "found" => goal \in Reach(W, H, occ, start)
Terminates == <>(status # "run")
=============================================================================
