------------------------------ MODULE PlanModel ------------------------------
(* Why "accepted plan" means "safe run": a vehicle on a line between walls,    *)
(* with an obstacle that comes along at a constant rate behind a gate line.    *)
(* An optimizer hands out any plan that satisfies the constraints; it may also *)
(* fail, and then the rest of the last plan is carried out.  Plans that end at *)
(* rest make every update solvable and the run safe, and a plan that ignores   *)
(* that obstacles move on does not.                                            *)
EXTENDS Integers, Sequences
CONSTANTS W, V, H, U, EndAtRest, ObsMoves
VARIABLES p, v, plan, o, ph
vars == <<p, v, plan, o, ph>>
RECURSIVE Pos(_, _, _), Vel(_, _, _)
Vel(v0, a, k) == IF k = 0 THEN v0 ELSE Vel(v0, a, k-1) + a[k]
Pos(p0, v0, k) == p0 + v0 * k
RECURSIVE Run(_, _, _, _)
\* position after k steps: velocity first changes, then the vehicle moves
Run(p0, v0, a, k) == IF k = 0 THEN p0 ELSE Run(p0, v0, a, k-1) + Vel(v0, a, k)
\* the obstacle: a wall that closes in from the right until Rest, and is told with its speed
Rest == W - 2
Obs(x, k) == IF x - k > Rest THEN x - k ELSE Rest
Feasible(p0, v0, o0) == { a \in [1..H -> {-1, 0, 1}] :
    /\ \A k \in 1..H : /\ Run(p0, v0, a, k) >= 0
                       /\ Run(p0, v0, a, k) <= (IF ObsMoves THEN Obs(o0, k) ELSE o0)
                       /\ Vel(v0, a, k) \in -V..V
    /\ EndAtRest => Vel(v0, a, H) = 0 }
Init == /\ p \in 0..Rest /\ v = 0 /\ o \in {Rest, Rest + 1, W} /\ ph = 0 /\ p <= o
        /\ plan = [k \in 1..H |-> 0]
\* what is left of a plan, which then holds its last speed
Left(a) == [k \in 1..H |-> IF k < H THEN a[k+1] ELSE 0]
Replan == /\ ph = 0
          /\ \/ plan' \in Feasible(p, v, o)
             \/ UNCHANGED plan
          /\ ph' = 1 /\ UNCHANGED <<p, v, o>>
Move == /\ ph \in 1..U
        /\ v' = v + plan[1] /\ p' = p + v + plan[1] /\ plan' = Left(plan)
        /\ o' = Obs(o, 1)
        /\ ph' = IF ph = U THEN 0 ELSE ph + 1
Next == Replan \/ Move
Spec == Init /\ [][Next]_vars
Safe == p >= 0 /\ p <= o /\ v \in -V..V
Solvable == ph = 0 => Feasible(p, v, o) # {}
==============================================================================
