----------------------------- MODULE SchedModel -----------------------------
(* A vehicle that is handed from frame to frame, on a line.  Frames come one *)
(* by one: each starts where the last one ends, R from its borders.  The     *)
(* local problem has the first n of them and the obstacles that move in      *)
(* each.  Between two updates the vehicle moves within the first frame, and  *)
(* obstacles come and go.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS G,      \* the goal, at G; the room is [-R-1, G+R+1]
          R,      \* the vehicle's size
          n0,     \* frames at a time
          Obs,    \* moving obstacles
          Drop    \* "none" | "early" | "last" | "goal" | "keep" | "skip"
VARIABLES pos, frames, nxt, inside, prob, turn
vars == <<pos, frames, nxt, inside, prob, turn>>
Lo == -R-1
Hi == G+R+1
None == [lo |-> 0, hi |-> 0, end |-> -1]
\* a frame from s: it ends before G, or at G
FrameFrom(s) == {[lo |-> a, hi |-> b, end |-> e] : a \in {Lo, s-R}, b \in {x \in (s+R+1)..Hi : x <= s+R+4}, e \in {x \in (s+1)..G : TRUE}}
Legal(f) == f.end + R <= f.hi /\ (f.end = G \/ f.end + R = f.hi)   \* as far as it can
NextFrames(s) == {f \in FrameFrom(s) : Legal(f)}
Has(f, p, d) == f.lo + d <= p /\ p <= f.hi - d
AtGoal(f) == f.end = G
\* which obstacles move in which frame is up to the environment; obstacles are in frames by number
InFrame(o, f) == <<o, f>> \in inside
Moving(fs) == [k \in 1..Len(fs) |-> {o \in Obs : InFrame(o, fs[k])}]
Tail1(fs) == SubSeq(fs, 2, Len(fs))
Problem(p, fs) == [x0 |-> p, xT |-> fs[Len(fs)].end, rooms |-> fs, obs |-> Moving(fs)]
\* the chains of up to k frames from s
RECURSIVE Chains(_, _)
Chains(s, k) == UNION {IF k = 1 \/ AtGoal(f) THEN {<<f>>} ELSE {<<f>> \o c : c \in Chains(f.end, k-1)} : f \in NextFrames(s)}
After(f) == IF AtGoal(f) THEN {None} ELSE NextFrames(f.end)
Init == /\ pos = 0 /\ inside = {} /\ turn = "move"
        /\ frames \in Chains(0, n0)
        /\ nxt \in IF n0 = 1 THEN After(frames[1]) ELSE {None}
        /\ prob = Problem(pos, frames)
Second == IF n0 = 1 THEN nxt ELSE IF Len(frames) > 1 THEN frames[2] ELSE None
Last1(f) == IF Drop = "goal" THEN Has(f, G, 0) ELSE AtGoal(f)
SwitchDue == ~Last1(frames[1]) /\ Second # None /\ Has(Second, pos, IF Drop = "early" THEN 0 ELSE R)
Advance == IF n0 = 1 THEN {<<nxt>>}
           ELSE LET t == Tail1(frames) l == t[Len(t)] IN IF AtGoal(l) THEN {t} ELSE {Append(t, f) : f \in NextFrames(l.end)}
Noticed == IF Drop = "last" THEN Moving(frames)[Len(frames)] # prob.obs[Len(frames)]
           ELSE IF Drop = "skip" THEN FALSE ELSE Moving(frames) # prob.obs
Solve == /\ turn = "solve" /\ turn' = "move" /\ UNCHANGED <<pos, inside>>
         /\ IF SwitchDue
            THEN /\ frames' \in Advance
                 /\ nxt' \in IF n0 = 1 THEN After(frames'[1]) ELSE {None}
                 /\ prob' = IF Drop = "keep" THEN prob ELSE Problem(pos, frames')
            ELSE /\ UNCHANGED <<frames, nxt>>
                 /\ prob' = [prob EXCEPT !.obs = IF Noticed THEN Moving(frames) ELSE @]
\* the plan goes on to the end of the first frame, or it is disturbed within the frame
Move == /\ turn = "move" /\ turn' = "solve" /\ UNCHANGED <<frames, nxt, prob>>
        /\ pos' \in {p \in {pos+1, pos+2} : p <= frames[1].end} \cup {pos}
        /\ pos' = pos => pos = frames[1].end
        /\ \E o \in Obs, f \in {frames[k] : k \in 1..Len(frames)} : inside' \in {inside, inside \cup {<<o, f>>}, inside \ {<<o, f>>}}
Next == Solve \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sane == Len(frames) >= 1
InsideFrame == Has(frames[1], pos, R)
\* what is handed to the optimizer is what is there
Current == turn = "move" => prob.rooms = frames /\ prob.obs = Moving(frames) /\ prob.xT = frames[Len(frames)].end
Joined == \A k \in 1..(Len(frames)-1) : Has(frames[k+1], frames[k].end, R)
Arrives == <>[](pos = G)
=============================================================================
