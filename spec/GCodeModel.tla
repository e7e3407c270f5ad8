----------------------------- MODULE GCodeModel -----------------------------
(* The machine runs any program line by line; then a window of N segments     *)
(* moves along the path it has read until the last one is done.               *)
EXTENDS GCode, FiniteSets
CONSTANTS L, W
VARIABLES prog, m, phase, n, done
vars == <<prog, m, phase, n, done>>
Opt(S) == {<<>>} \cup {<<v>> : v \in S}
Line == [g : {"G00", "G01", "G03", ""}, x : Opt({0, 1}), y : {<<>>}, z : Opt({1}), i : {<<>>}, j : {<<>>}]
Shift(l) == [l EXCEPT !.x = IF l.x = <<>> THEN <<>> ELSE <<l.x[1] + 5>>]
Init == prog = <<>> /\ m = Start /\ phase = "read" /\ n = 0 /\ done = <<>>
Read == phase = "read" /\ Len(prog) < L /\ \E l \in Line : prog' = Append(prog, l) /\ m' = Exec(m, l) /\ UNCHANGED <<phase, n, done>>
Go == phase = "read" /\ m.path # <<>> /\ phase' = "cut" /\ n' = 1 /\ UNCHANGED <<prog, m, done>>
\* the window: from n on, W segments or as many as are left
Window == SubSeq(m.path, n, IF n + W - 1 < Len(m.path) THEN n + W - 1 ELSE Len(m.path))
Cut == phase = "cut" /\ done' = Append(done, Head(Window)) /\ UNCHANGED <<prog, m>>
       /\ (IF n = Len(m.path) THEN phase' = "end" /\ n' = n ELSE phase' = "cut" /\ n' = n + 1)
Stay == phase = "end" /\ UNCHANGED vars
Next == Read \/ Go \/ Cut \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Cut)
Joined == \A k \in 1..(Len(m.path)-1) : m.path[k].b = m.path[k+1].a
EndsHere == m.path # <<>> => m.path[Len(m.path)].b = m.pos
Moves == \A k \in 1..Len(m.path) : m.path[k].g \in Arcs \/ m.path[k].a # m.path[k].b
Same == m = Interp(prog)
Silent == Interp(prog) = Interp(SelectSeq(prog, LAMBDA l : l.g # ""))
Divided == /\ Flat(Parts(m.path)) = m.path
           /\ \A k \in 1..Len(Parts(m.path)) : Parts(m.path)[k] # <<>> /\ (Len(Parts(m.path)[k]) = 1 \/ \A b \in 1..Len(Parts(m.path)[k]) : ~UpDown(Parts(m.path)[k][b]))
\* a program that first says where it stands can be moved elsewhere
Fixed == prog # <<>> /\ prog[1].g = "G00" /\ prog[1].x # <<>>
Elsewhere == Fixed => LET s == Interp([k \in 1..Len(prog) |-> Shift(prog[k])]).path IN
   /\ Len(s) = Len(m.path) /\ \A k \in 1..Len(s) : s[k].a[1] = m.path[k].a[1] + 5 /\ s[k].b[1] = m.path[k].b[1] + 5
InOrder == done = SubSeq(m.path, 1, Len(done))
AllDone == phase = "end" => done = m.path
Finishes == phase = "cut" ~> phase = "end"
=============================================================================
