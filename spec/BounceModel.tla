----------------------------- MODULE BounceModel -----------------------------
(* An obstacle bouncing in a room: where it hits the border, one component of *)
(* its velocity turns.  It finds out which by looking whether it would be in  *)
(* the room D to the side and D down; near a corner it may take the one wall  *)
(* for the other, and yet it never gets far out and always comes back.        *)
EXTENDS Integers
CONSTANTS N, V, D
VARIABLES p, v
vars == <<p, v>>
Outside(q) == \E c \in 1..2 : q[c] < 0 \/ q[c] > N
Into(c) == (p[c] < 0 /\ v[c] < 0) \/ (p[c] > N /\ v[c] > 0)
Corner == \A c \in 1..2 : p[c] < D \/ p[c] > N - D
Flip(c) == [v EXCEPT ![c] = -v[c]]
\* moving right and up, or left and down, it looks to the right; it looks down always
Look == <<p[1] + (IF v[1]*v[2] > 0 THEN D ELSE -D), p[2] - D>>
Turned == IF ~Outside(p) THEN v
          ELSE IF v[1] = 0 \/ v[2] = 0 THEN <<-v[1], -v[2]>>
          ELSE IF v[2] > 0 THEN (IF Outside(Look) THEN Flip(1) ELSE Flip(2)) ELSE (IF Outside(Look) THEN Flip(2) ELSE Flip(1))
Init == p \in (0..N) \X (0..N) /\ v \in ((-V)..V) \X ((-V)..V)
Next == v' = Turned /\ p' = <<p[1] + v'[1], p[2] + v'[2]>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Stays == \A c \in 1..2 : p[c] >= -2*V /\ p[c] <= N + 2*V
Speed == [][\A c \in 1..2 : v'[c]*v'[c] = v[c]*v[c]]_vars
Straight == [][~Outside(p) => v' = v]_vars
Back == [][(\E c \in 1..2 : Into(c)) /\ ~Corner => \E c \in 1..2 : Into(c) /\ v'[c] = -v[c]]_vars
In == []<>~Outside(p)
=============================================================================
