------------------------------- MODULE GCode -------------------------------
(* What a G-code program means: a machine with a position that executes one   *)
(* line after the other.  Lengths in 1e-3.                                    *)
(* A line: g, the motion ("" for none), and words x, y, z, i, j, each <<>> or *)
(* <<value>>.  Words left out keep the coordinate (or are a zero offset).     *)
EXTENDS Integers, Sequences, SequencesExt
Or(w, d) == IF w = <<>> THEN d ELSE w[1]
Motions == {"G00", "G01", "G02", "G03"}
Arcs == {"G02", "G03"}
Target(p, l) == <<Or(l.x, p[1]), Or(l.y, p[2]), Or(l.z, p[3])>>
Centre(p, l) == <<p[1] + Or(l.i, 0), p[2] + Or(l.j, 0)>>
\* the machine: where it is, whether it has been put anywhere yet, what it has cut
Start == [pos |-> <<0, 0, 0>>, set |-> FALSE, path |-> <<>>]
\* the first motion, if a rapid one, only says where the tool stands
Exec(m, l) == IF l.g \notin Motions THEN m
    ELSE LET q == Target(m.pos, l) IN
      IF (~m.set /\ l.g = "G00") \/ (l.g \notin Arcs /\ q = m.pos) THEN [m EXCEPT !.pos = q, !.set = TRUE]
      ELSE [pos |-> q, set |-> TRUE,
            path |-> Append(m.path, [g |-> l.g, a |-> m.pos, b |-> q, c |-> IF l.g \in Arcs THEN Centre(m.pos, l) ELSE <<>>])]
Interp(lines) == FoldLeft(Exec, Start, lines)
\* division: a move of the tool up or down stands by itself
UpDown(b) == b.g \notin Arcs /\ b.a[3] # b.b[3]
RECURSIVE Parts(_)
Parts(path) == IF path = <<>> THEN <<>>
    ELSE LET r == Parts(Tail(path)) h == Head(path) IN
      IF r = <<>> \/ UpDown(h) \/ UpDown(Head(Head(r))) THEN <<<<h>>>> \o r ELSE <<<<h>> \o Head(r)>> \o Tail(r)
Flat(ps) == FoldLeft(LAMBDA s, x : s \o x, <<>>, ps)
=============================================================================
