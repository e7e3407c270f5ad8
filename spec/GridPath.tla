------------------------------ MODULE GridPath ------------------------------
(* What a path over the cells of a grid is: the moves a vehicle may make     *)
(* between free cells, reachability, and what "nearest free cell" means.     *)
(* A cell is <<column, row>>, counted from zero.                             *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, FiniteSetsExt

GAbs(x) == IF x < 0 THEN -x ELSE x
Cells(W, H) == (0..(W-1)) \X (0..(H-1))
Free(W, H, occ) == Cells(W, H) \ occ
\* 8-connected moves; a diagonal may not cut the corner of a blocked cell
Move(W, H, occ, a, b) ==
    LET dx == b[1] - a[1]
        dy == b[2] - a[2]
        F  == Free(W, H, occ)
    IN /\ a # b /\ GAbs(dx) <= 1 /\ GAbs(dy) <= 1
       /\ b \in F
       /\ (dx # 0 /\ dy # 0) => (<<a[1] + dx, a[2]>> \in F /\ <<a[1], a[2] + dy>> \in F)
Succ(W, H, occ, a) ==
    LET cand == {<<a[1]+dx, a[2]+dy>> : dx \in -1..1, dy \in -1..1}
    IN {b \in cand : Move(W, H, occ, a, b)}
RECURSIVE Grow(_, _, _, _, _)
Grow(W, H, occ, seen, front) ==
    IF front = {} THEN seen
    ELSE LET nxt == (UNION {Succ(W, H, occ, a) : a \in front}) \ seen
         IN Grow(W, H, occ, seen \cup nxt, nxt)
Reach(W, H, occ, a) == Grow(W, H, occ, {a}, {a})
=============================================================================
