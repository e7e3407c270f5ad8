---------------------------- MODULE SplineTrace ----------------------------
(* Judges what the real code does with splines, as functions.                 *)
(* every record: a (and b): operands, r: result, as splines; x: points,       *)
(* tol: in units of the values; L: knot units per unit of time                *)
EXTENDS Verdict, Splines
Inside(s, x) == x >= Lo(s) /\ x <= Hi(s)
Mul6(a, b) == SRd(SRd(a, 100) * SRd(b, 100), 100)          \* values in 1e-6
Has(r, f) == f \in DOMAIN r
\* both one-sided limits, since nothing is said at a jump
Vals(s, x) == <<AtL(s, x), At(s, x)>>
Both(r, clause, want(_), got(_)) == ForEach(Len(r.x), LAMBDA k :
    Need(Close(want(r.x[k]), got(r.x[k]), r.tol), clause \o "." \o r.op, <<"x", r.x[k], "want", want(r.x[k]), "got", got(r.x[k])>>))
Form(r) == Need(WellFormed(r.r), "form." \o r.op, <<r.r.k, Len(r.r.c)>>)
Domain(r, a, b) == Need(Clamped(r.r, a, b), "domain." \o r.op, <<a, b, r.r.k>>)
Want(r, x) ==
   CASE r.op \in {"add"} -> At(r.a, x) + At(r.b, x)
     [] r.op \in {"sub"} -> At(r.a, x) - At(r.b, x)
     [] r.op \in {"mul"} -> Mul6(At(r.a, x), At(r.b, x))
     [] r.op \in {"pow"} -> Mul6(At(r.a, x), At(r.a, x))
     [] r.op \in {"neg"} -> -At(r.a, x)
     [] r.op \in {"plus"} -> At(r.a, x) + r.num
     [] r.op \in {"rsub"} -> r.num - At(r.a, x)
     [] r.op \in {"times"} -> Mul6(At(r.a, x), r.num)
     [] r.op \in {"insert", "crop", "interval", "insertT", "shift", "first", "back", "symfirst", "symback", "reexpress"} -> At(r.a, x)
     [] r.op = "deriv" -> At(Deriv(r.a, r.L), x)
     [] r.op = "extrapolate" -> Poly(r.a, Left(r.a, Min2(x, Hi(r.a))), x)
     [] r.op = "overknot" -> Poly(r.a, Left(r.a, Min2(x, Hi(r.a))), x)
     [] r.op = "scale" -> At(r.a, SRd(x - r.by, r.num))
     [] r.op = "concat" -> LET j == CHOOSE j \in 1..Len(r.parts) : (j = Len(r.parts) \/ x < r.start[j+1]) /\ x >= r.start[j]
                           IN At(r.parts[j], x - r.start[j])
JudgeOp(r) == Form(r) \o (IF WellFormed(r.r) THEN
      (IF Has(r, "dom") THEN Domain(r, r.dom[1], r.dom[2]) ELSE <<>>)
      \o (IF Lo(r.r) < Hi(r.r) THEN Both(r, "value", LAMBDA x : Want(r, x), LAMBDA x : At(r.r, x)) ELSE <<>>) ELSE <<>>)
\* values the code computes itself: y[k] = spline at x[k]
JudgeEval(r) == ForEach(Len(r.x), LAMBDA k :
    LET v == Vals(r.a, r.x[k]) IN
    Need(Close(v[1], r.y[k], r.tol) \/ (r.sides /\ Close(v[2], r.y[k], r.tol)), "value." \o r.op, <<"x", r.x[k], "want", v, "got", r.y[k]>>))
\* the running integral r of a: starts at 0, and has a as its slope
JudgeInt(r) == Form(r) \o (IF WellFormed(r.r) THEN
    Need(Close(r.r.c[1], 0, r.tol), "value.integral0", r.r.c[1])
    \o Both(r, "slope", LAMBDA x : At(r.a, x), LAMBDA x : At(Deriv(r.r, r.L), x))
    \* what is added between two moments
    \o ForEach(Len(r.from), LAMBDA k : LET w == At(r.r, r.to[k]) - At(r.r, r.from[k]) IN
         Need(Close(w, r.got[k], r.tol), "value.definite", <<r.from[k], r.to[k], w, r.got[k]>>))
    \o Need(Close(r.r.c[Len(r.r.c)] - r.r.c[1], r.total, r.tol), "value.total", <<r.r.c[Len(r.r.c)], r.total>>) ELSE <<>>)
\* roots: at each one the spline vanishes, and every change of sign has one
JudgeRoots(r) == ForEach(Len(r.y), LAMBDA k : Need(Close(At(r.a, r.y[k]), 0, r.tol), "value.root", <<r.y[k], At(r.a, r.y[k])>>))
    \o ForEach(Len(r.x) - 1, LAMBDA k : LET u == At(r.a, r.x[k]) v == At(r.a, r.x[k+1]) IN
         Need(~((u > r.tol /\ v < -r.tol) \/ (u < -r.tol /\ v > r.tol)) \/ \E j \in 1..Len(r.y) : r.y[j] \in (r.x[k]-1)..(r.x[k+1]+1),
              "value.lostroot", <<r.x[k], u, r.x[k+1], v, r.y>>))
Judge(r) == CASE r.type = "op" -> JudgeOp(r) [] r.type = "eval" -> JudgeEval(r)
              [] r.type = "int" -> JudgeInt(r) [] r.type = "roots" -> JudgeRoots(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
