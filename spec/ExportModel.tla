----------------------------- MODULE ExportModel -----------------------------
(* The bookkeeping of the exported program between updates: one flat vector  *)
(* of variables in which the splines lie one after the other, the time from  *)
(* which the number of passed knot intervals is derived, the instants for    *)
(* which parameters are given, and the vectors that belong to the user.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Shape,   \* which variables there are, see Vars
          K,       \* samples in a knot interval
          U,       \* samples between updates
          Limit,   \* samples that the history may last
          Bug      \* "none", or a mutation: "rows" | "once" | "first" | "long" | "retry"
\* rows and columns of the variables in the order in which they lie
Vars == CASE Shape = 1 -> <<<<3, 2>>, <<2, 1>>, <<2, 2>>>>
          [] Shape = 2 -> <<<<2, 1>>, <<2, 2>>>>
          [] Shape = 3 -> <<<<3, 2>>, <<1, 1>>, <<2, 3>>, <<2, 1>>>>
          [] OTHER -> <<<<3, 2>>, <<2, 1>>>>
VARIABLES mem, base, t, prev, at, par, seen, len, wrote, read, fresh
vars == <<mem, base, t, prev, at, par, seen, len, wrote, read, fresh>>
N == Len(Vars)
Max(a, b) == IF a < b THEN b ELSE a
Cells(v) == Vars[v][1] * Vars[v][2]
RECURSIVE Off(_, _)
Off(v, rows) == IF v = 1 THEN 0 ELSE Off(v-1, rows) + (IF rows THEN Vars[v-1][1] ELSE Cells(v-1))
Size == Off(N, FALSE) + Cells(N)
Idx(v, c, r, rows) == Off(v, rows) + (c-1)*Vars[v][1] + r
\* a coefficient stands for <<variable, column, the knot it belongs to>>
Full(v, c, r, b) == <<v, c, b + r>>
Where(k) == CHOOSE p \in {<<v, c, r>> : v \in 1..N, c \in 1..3, r \in 1..3} :
               /\ p[2] <= Vars[p[1]][2] /\ p[3] <= Vars[p[1]][1] /\ Idx(p[1], p[2], p[3], FALSE) = k
Start == [k \in 1..Size |-> LET p == Where(k) IN Full(p[1], p[2], p[3], 0)]
Init == /\ mem = Start /\ base = [v \in 1..N |-> 0] /\ t = 0 /\ prev = 0 /\ at = 0 /\ par = 0 /\ seen = 0
        /\ len \in 1..(U+2) /\ wrote = 0 /\ read = 0 /\ fresh = TRUE
\* one knot on: each coefficient takes the value of the next, the last one is extrapolated
Next1(m, v) == LET rows == Bug = "rows" n == Vars[v][1]
                   cells == {Idx(v, c, r, rows) : c \in 1..Vars[v][2], r \in 1..n}
                   Up(x) == <<x[1], x[2], x[3]+1>> IN
   [k \in 1..Size |-> IF k \notin cells THEN m[k]
      ELSE LET o == k - Off(v, rows) - 1 r == (o % n) + 1 IN
           IF r < n THEN m[k+1] ELSE Up(m[k])]
RECURSIVE All(_, _)
All(m, v) == IF v > N THEN m ELSE All(Next1(m, v), v+1)
RECURSIVE Times(_, _)
Times(m, n) == IF n <= 0 THEN m ELSE Times(All(m, 1), n-1)
Knots(now, before) == LET n == now \div K - before \div K IN IF Bug = "once" /\ n > 1 THEN 1 ELSE n
\* the guess of the vehicle alone is made anew
Renew(m) == [k \in 1..Size |-> IF k <= Cells(1) THEN LET p == Where(k) IN Full(1, p[2], p[3], 0) ELSE m[k]]
Update(s, ok, again) ==
   LET now == t + s first == now = 0 m == Times(mem, Knots(now, prev)) IN
   /\ now <= Limit /\ (fresh => s = 0)
   /\ mem' = IF first \/ again THEN Renew(m) ELSE m
   /\ base' = IF first \/ again THEN [base EXCEPT ![1] = - (now \div K)] ELSE base
   /\ at' = now /\ par' = now % K
   \* obstacles were measured when the vehicle left for here
   /\ seen' = (IF first THEN 0 ELSE now - U) + (IF first /\ Bug # "first" THEN 0 ELSE U)
   /\ wrote' = IF ~ok THEN 0 ELSE IF Bug = "long" THEN Max(len, U) + 1 ELSE len
   /\ read' = IF first THEN 0 ELSE U + s
   /\ prev' = IF Bug = "retry" /\ ~ok THEN prev ELSE now
   /\ t' = IF ok THEN now + U ELSE now
   /\ fresh' = (first /\ ~ok)
   /\ UNCHANGED len
\* started again: only the time, the splines stay where they are
Reset == /\ ~fresh /\ t' = 0 /\ prev' = 0 /\ fresh' = TRUE
         /\ base' = [v \in 1..N |-> base[v] + at \div K] /\ at' = 0 /\ par' = 0 /\ seen' = 0 /\ wrote' = 0 /\ read' = 0
         /\ UNCHANGED <<mem, len>>
Next == Reset \/ \E s \in 0..Max(0, len-U), ok \in BOOLEAN, again \in BOOLEAN : Update(s, ok, again)
Bounded == base \in [1..N -> -6..6]
Spec == Init /\ [][Next]_vars
\* every coefficient is where the problem will look for it, and belongs to the interval of the time
Placed == \A v \in 1..N, c \in 1..3, r \in 1..3 :
             (c <= Vars[v][2] /\ r <= Vars[v][1]) => mem[Idx(v, c, r, FALSE)] = Full(v, c, r, base[v] + at \div K)
\* the plan is used from the same time in the interval on
Window == par \in 0..(K-1)
InStep == par = at - K*(at \div K)
\* obstacles are where they will be when the plan starts
Foreseen == seen = at
\* of the user's vectors and of our own
InBounds == wrote <= len /\ read <= Max(len, U)
==============================================================================
