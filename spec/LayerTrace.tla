----------------------------- MODULE LayerTrace -----------------------------
(* Judges problems put together by the real modelling layer.                  *)
EXTENDS Verdict, Layer
INF == 1000000000
Set(s) == {s[k] : k \in 1..Len(s)}
\* entities: [o, n, par, spl (length of the basis or 0), seg, val]
Find(r, f) == CHOOSE e \in 1..Len(r.ents) : r.ents[e].n = f.n /\ (f.sym \/ r.ents[e].o = f.o)
RECURSIVE Times(_, _, _, _)
Times(r, env, fs, k) == IF k = 0 THEN 1 ELSE env[Find(r, fs[k])][fs[k].i] * Times(r, env, fs, k - 1)
RECURSIVE Val(_, _, _, _)
Val(r, env, ts, k) == IF k = 0 THEN 0 ELSE ts[k].c * Times(r, env, ts[k].f, Len(ts[k].f)) + Val(r, env, ts, k - 1)
Expr(r, env, ts) == Val(r, env, ts, Len(ts))
\* constraints in the order of the problem: children as added, each in order of definition
RECURSIVE Strung(_)
Strung(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Strung(Tail(ss))
Limits(r) == Strung([k \in 1..Len(r.order) |-> SelectSeq(r.cons, LAMBDA c : c.o = r.order[k])])
G(r, env) == LET cs == Limits(r) IN Strung([k \in 1..Len(cs) |-> [j \in 1..Len(cs[k].rows) |-> Expr(r, env, cs[k].rows[j])]])
RECURSIVE SumObj(_, _, _)
SumObj(r, env, k) == IF k = 0 THEN 0 ELSE Expr(r, env, r.objs[k].e) + SumObj(r, env, k - 1)
Off(c, t) == CASE c.shut = "" -> FALSE [] c.shut = ">" -> t > c.at [] c.shut = "<" -> t < c.at [] c.shut = ">=" -> t >= c.at
Bound(r, t, lower) == LET cs == Limits(r) IN Strung([k \in 1..Len(cs) |-> [j \in 1..Len(cs[k].rows) |->
      IF Off(cs[k], t) THEN (IF lower THEN -INF ELSE INF) ELSE IF lower THEN cs[k].lb ELSE cs[k].ub]])
Declared(r) == [e \in 1..Len(r.ents) |-> r.ents[e].val]
Given(a, e) == {k \in 1..Len(a.given) : a.given[k].e = e}
\* what every entity is worth after an action
After(r, env, a) == CASE
     a.a = "set" -> [env EXCEPT ![a.e] = a.val]
  [] a.a = "all" -> [e \in 1..Len(env) |-> IF r.ents[e].par THEN env[e] ELSE a.vals[e]]
  [] a.a = "par" -> [e \in 1..Len(env) |-> IF ~r.ents[e].par THEN env[e]
                        ELSE IF Given(a, e) # {} THEN a.given[CHOOSE k \in Given(a, e) : TRUE].val ELSE r.ents[e].val]
  [] a.a = "shift" -> [e \in 1..Len(env) |-> IF ~r.ents[e].par /\ r.ents[e].spl > 0 /\ r.ents[e].seg \in Set(a.segs)
                          THEN [k \in 1..Len(env[e]) |-> env[e][k] + 100*r.ents[e].spl] ELSE env[e]]
  [] OTHER -> env
Look(r, env, a) ==
   Need(a.vals = env, "value." \o a.a, <<"object, name", {<<r.ents[e].o, r.ents[e].n, env[e], a.vals[e]>> : e \in {x \in 1..Len(env) : env[x] # a.vals[x]}}>>)
   \o (CASE a.a = "eval" -> Need(a.g = G(r, env), "constraint", <<G(r, env), a.g>>) \o Need(a.f = SumObj(r, env, Len(r.objs)), "objective", <<SumObj(r, env, Len(r.objs)), a.f>>)
         [] a.a = "bounds" -> Need(a.lb = Bound(r, a.t, TRUE), "lower", <<a.t, Bound(r, a.t, TRUE), a.lb>>) \o Need(a.ub = Bound(r, a.t, FALSE), "upper", <<a.t, Bound(r, a.t, FALSE), a.ub>>)
         [] a.a = "subst" -> LET w == [k \in 1..Len(r.subs[a.s].rows) |-> Expr(r, env, r.subs[a.s].rows[k])] IN Need(a.got = w, "substitute", <<r.subs[a.s].n, w, a.got>>)
         [] a.a = "asked" -> LET w == [k \in 1..Len(r.cons[a.c].rows) |-> Expr(r, env, r.cons[a.c].rows[k])] IN Need(a.got = w, "asked.constraint", <<w, a.got>>)
         [] a.a = "askedf" -> LET os == SelectSeq(r.objs, LAMBDA o : o.o = a.o) w == SumObj([r EXCEPT !.objs = os], env, Len(os)) IN Need(a.got = w, "asked.objective", <<w, a.got>>)
         [] OTHER -> <<>>)
RECURSIVE Walk(_, _, _)
Walk(r, env, k) == IF k > Len(r.acts) THEN <<>> ELSE LET a == r.acts[k] e == After(r, env, a) IN Look(r, e, a) \o Walk(r, a.vals, k + 1)
Defs(r) == {<<r.ents[e].o, r.ents[e].n>> : e \in 1..Len(r.ents)}
Ments(r) == {<<r.ments[k].o, r.ments[k].n>> : k \in 1..Len(r.ments)}
JudgeModel(r) == LET wrong == Meaningless(Defs(r), Ments(r)) IN
   Need(wrong => r.refused, "accepted", Ments(r)) \o Need(r.refused => wrong, "refused", <<Ments(r), Defs(r)>>)
   \o (IF wrong \/ r.refused THEN <<>> ELSE Cat(<<Walk(r, Declared(r), 1)>>))
\* labels asked for and got, in order
RECURSIVE Labels(_, _, _)
Labels(r, used, k) == IF k > Len(r.asked) THEN <<>> ELSE
   LET want == FirstFree(used, r.asked[k].s, r.asked[k].k) got == <<r.got[k].s, r.got[k].k>> IN
   Need(got \notin used, "label.taken", <<got>>) \o Need(got = want, "label", <<want, got>>) \o Labels(r, used \cup {got}, k + 1)
Judge(r) == CASE r.type = "model" -> JudgeModel(r) [] r.type = "labels" -> Cat(<<Labels(r, {}, 1)>>)
     [] r.type = "clash" -> Need(r.refused = r.clash, "parameter.clash", <<r.clash, r.refused>>)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
