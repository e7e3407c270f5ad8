------------------------------ MODULE Verdict ------------------------------
(* Shared by all trace specifications: read recorded behaviours, walk over   *)
(* them one per step, keep the clauses that a behaviour breaks, and report a *)
(* total verdict.  Nothing is decided outside TLA+: the driver only reads    *)
(* the file that Verdict writes.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

B(clause, info) == [clause |-> clause, info |-> ToString(info)]
\* If ok fails, report the clause (a sequence of at most one entry)
Need(ok, clause, info) == IF ok THEN <<>> ELSE <<B(clause, info)>>
\* concatenate the reports of a sequence of reports, keep the first few
Cat(ss) == FoldLeft(LAMBDA acc, s : IF Len(acc) > 8 THEN acc ELSE acc \o s, <<>>, ss)
\* reports of P(k) for k in 1..n
ForEach(n, P(_)) == Cat([k \in 1..n |-> P(k)])

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Close(a, b, tol) == a - b <= tol /\ b - a <= tol

VARIABLES i, bad
tvars == <<i, bad>>
TraceInit == /\ i = 1
             /\ bad = <<>>
             /\ TLCSet(1, <<>>)
             /\ TLCSet(2, 0)
Tag(k, reports) == [j \in 1..Len(reports) |->
                      [i |-> k, clause |-> reports[j].clause, info |-> reports[j].info]]
TraceStep(Judge(_)) ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET r == Tag(i, Judge(Trace[i]))
       IN bad' = IF Len(bad) > 300 THEN bad ELSE bad \o r
    /\ TLCSet(1, bad')
    /\ TLCSet(2, i)
WriteVerdict == JsonSerialize(IOEnv.VERDICT, <<[n |-> TLCGet(2), bad |-> TLCGet(1)]>>)
=============================================================================
