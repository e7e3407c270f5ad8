------------------------------ MODULE ADMMTrace ------------------------------
(* Judges recorded iterations of the distributed problems, one at a time, as   *)
(* atomic steps of the protocol.  All vectors are coefficients on the part of  *)
(* the horizon that lies ahead.  A record carries for every agent: before      *)
(* (what it kept, moved over the knots that have passed since), seen (what its *)
(* optimization was given and answered), after.                                *)
EXTENDS Verdict, ADMMCore

VClose(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol)
Pos(s, e) == CHOOSE k \in 1..Len(s) : s[k] = e

JudgeIt(r, q, alpha) ==
    LET
    N == r.N
    nb(a) == r.nb[a]
    dd == r.kind = "dd"
    tail == r.kind = "admm"
    tol == 3
    big == 4                     \* multipliers are amplified by rho
    S(a) == q.seen[a]
    Bf(a) == q.before[a]
    Af(a) == q.after[a]
    H == r.H
    \* ----- time
    Timing == Cat([a \in 1..N |->
        Cat(<< Need(Close(S(a).T, H, 1), "time.T", <<S(a).T, H>>),
               Need(Close(S(a).t, q.t, 2), "time.t", <<S(a).t, q.t>>),
               Need(S(a).calls = 1, "protocol.one-solve-per-iteration", S(a).calls) >>)])
    \* ----- what the optimizations are given
    Given == Cat([a \in 1..N |->
        IF dd THEN
            Cat([m \in 1..Len(nb(a)) |->
                Need(VClose(S(a).l_ji[m], Bf(a).l_ji[m], big), "given.multipliers-of-neighbours", <<a, nb(a)[m]>>)
                \o Need(VClose(S(a).l_ij[m], Bf(a).l_ij[m], big), "given.multipliers", <<a, nb(a)[m]>>)])
        ELSE
            Need(VClose(S(a).z_i, Bf(a).z_i, tol), "given.own-copy", a)
            \o Need(VClose(S(a).l_i, Bf(a).l_i, big), "given.own-multipliers", a)
            \o Need(S(a).rho = q.rho, "given.rho", S(a).rho)
            \o Cat([m \in 1..Len(nb(a)) |->
                Need(VClose(S(a).z_ji[m], Bf(a).z_ji[m], tol), "given.neighbours-copies", <<a, nb(a)[m]>>)
                \o Need(VClose(S(a).l_ji[m], Bf(a).l_ji[m], big), "given.neighbours-multipliers", <<a, nb(a)[m]>>)])])
    \* ----- the coordination step, from this iteration's answers
    xs(a) == <<S(a).x>> \o [m \in 1..Len(nb(a)) |-> S(nb(a)[m]).x]
    ls(a) == <<Bf(a).l_i>> \o Bf(a).l_ij
    zstar == [a \in 1..N |-> IF dd THEN <<>> ELSE Consensus(xs(a), ls(a), r.n, r.deg, tail, r.rhoN, r.rhoD)]
    lown == [a \in 1..N |-> IF dd THEN <<>> ELSE Ascend(Bf(a).l_i, S(a).x, zstar[a], r.rhoN, r.rhoD)]
    lnb == [a \in 1..N |-> [m \in 1..Len(nb(a)) |->
              Ascend(Bf(a).l_ij[m], S(nb(a)[m]).x, IF dd THEN S(a).z[m] ELSE zstar[a], r.rhoN, r.rhoD)]]
    ltol == big + 4 + (4*r.rhoN) \div r.rhoD
    \* acceleration: weights (alpha_p - 1)/alpha, in thousandths
    ac == alpha.next
    f == RDiv((alpha.cur - 10000)*10000, ac)
    Acc(new, old) == [k \in 1..Len(new) |-> new[k] + RDiv(f*RDiv(new[k] - old[k], 10), 1000)]
    zfin(a, old) == IF ~r.acc THEN zstar[a]
                    ELSE IF q.reset = 1 THEN old
                    ELSE IF r.ama THEN zstar[a] ELSE Acc(zstar[a], old)
    lfin(new, old) == IF ~r.acc THEN new ELSE IF q.reset = 1 THEN old ELSE Acc(new, old)
    acct == IF r.acc THEN 12 ELSE 0
    Update == Cat([a \in 1..N |->
        Cat(<< Need(VClose(Af(a).x_i, S(a).x, tol), "update.own-plan", a),
               IF dd THEN
                 Cat([m \in 1..Len(nb(a)) |->
                    Need(VClose(Af(a).z_ij[m], S(a).z[m], tol), "update.copies", <<a, nb(a)[m]>>)
                    \o Need(VClose(Af(a).l_ij[m], lnb[a][m], ltol), "update.multipliers", <<a, nb(a)[m]>>)])
               ELSE
                 Need(VClose(Af(a).z_i, zfin(a, Bf(a).z_i), tol + 2 + acct), "update.agree", <<a, q.us>>)
                 \o Need(VClose(Af(a).l_i, lfin(lown[a], Bf(a).l_i), ltol + 4*acct), "update.multipliers", <<a, q.us>>)
                 \o Cat([m \in 1..Len(nb(a)) |->
                    Need(VClose(Af(a).z_ij[m], zfin(a, Bf(a).z_ij[m]), tol + 2 + acct), "update.agree", <<a, nb(a)[m]>>)
                    \o Need(VClose(Af(a).l_ij[m], lfin(lnb[a][m], Bf(a).l_ij[m]), ltol + 4*acct), "update.multipliers", <<a, nb(a)[m]>>)])
            >>)])
    \* ----- afterwards everybody has what the neighbours decided
    Exchange == Cat([a \in 1..N |->
        Cat([m \in 1..Len(nb(a)) |->
            LET b == nb(a)[m] back == Pos(nb(b), a) IN
            Cat(<< Need(VClose(Af(a).x_j[m], Af(b).x_i, tol), "exchange.plans", <<a, b>>),
                   Need(VClose(Af(a).l_ji[m], Af(b).l_ij[back], big), "exchange.multipliers", <<a, b>>),
                   IF dd THEN <<>> ELSE Need(VClose(Af(a).z_ji[m], Af(b).z_ij[back], tol), "exchange.copies", <<a, b>>) >>)])])
    \* ----- the residual that is reported is the disagreement (hundredths)
    cent(v) == [k \in 1..Len(v) |-> RDiv(v[k], 100)]
    prA(a) == IF dd THEN SumOver([m \in 1..Len(nb(a)) |-> Norm2(cent(S(nb(a)[m]).x), cent(S(a).z[m]))])
              ELSE SumOver([m \in 1..Len(xs(a)) |-> Norm2(cent(xs(a)[m]), cent(zstar[a]))])
    prE(a) == IF dd THEN SumOver([m \in 1..Len(nb(a)) |-> Norm1(cent(S(nb(a)[m]).x), cent(S(a).z[m]))])
              ELSE SumOver([m \in 1..Len(xs(a)) |-> Norm1(cent(xs(a)[m]), cent(zstar[a]))])
    pr == SumOver([a \in 1..N |-> prA(a)])
    pe == 2*SumOver([a \in 1..N |-> prE(a)]) + 200
    \* and how far what is agreed upon moved
    dzA(a, D(_, _)) == IF dd THEN 0 ELSE D(cent(zstar[a]), cent(Bf(a).z_i)) + SumOver([m \in 1..Len(nb(a)) |-> D(cent(zstar[a]), cent(Bf(a).z_ij[m]))])
    dr == SumOver([a \in 1..N |-> dzA(a, Norm2)])
    dz == 2*SumOver([a \in 1..N |-> dzA(a, Norm1)]) + 200
    v == RDiv(q.res[1], 10)
    Residual == Cat(<< Need(q.nres = 1, "residual.one-per-iteration", q.nres),
                       \* q.res in thousandths: (res/10)^2 in 1e-4
                       Need(v > 30000 \/ Close(v*v, pr, pe + 2*v), "residual.primal", <<v*v, pr, pe>>),
                       IF dd THEN <<>> ELSE
                       LET d == RDiv(q.res[2], 10) ds == RDiv(dr*r.rhoN, r.rhoD) de == RDiv(dz*r.rhoN, r.rhoD) + 2*d + 200
                           cs == RDiv(pr*r.rhoN, r.rhoD) + ds ce == RDiv(pe*r.rhoN, r.rhoD) + de IN
                       Need(d > 30000 \/ dr*r.rhoN > 900000000 \/ Close(d*d, ds, de), "residual.dual", <<d*d, ds, de>>)
                       \o Need(d > 30000 \/ v > 30000 \/ dr*r.rhoN > 900000000 \/ pr*r.rhoN > 900000000 \/ Close(q.res[3], RDiv(cs, 10), RDiv(ce, 10) + 20), "residual.combined", <<q.res[3], cs, ce>>) >>)
    IN Cat(<<Timing, Given, IF r.acc /\ q.reset = 2 THEN <<>> ELSE Update, Exchange, Residual>>)

\* the weights of the acceleration, in ten thousandths: alpha' = (1 + sqrt(1+4 alpha^2))/2
RECURSIVE ISqrt(_, _)
ISqrt(v, g) == LET h == (g + v \div g) \div 2 IN IF h >= g THEN g ELSE ISqrt(v, h)
AlphaNext(a) == a + 5000 + RDiv(50000000, 2*a + 10*ISqrt(1000000 + 4*(a \div 10)*(a \div 10), 40000))

JudgeObj(r, o) ==
    LET S2(a, b) == SumOver([k \in 1..Len(a) |-> a[k]*b[k]])
        D(a, b) == [k \in 1..Len(a) |-> a[k]-b[k]]
        al(x, z, l) == S2(l, D(x, z)) + (IF o.ama THEN 0 ELSE RDiv(o.rho*RDiv(S2(D(x, z), D(x, z)), 2), 100))
        want == IF r.kind = "dd"
                THEN SumOver([m \in 1..Len(o.lji) |-> S2(o.lji[m], o.x) - S2(o.lij[m], o.z[m])])
                ELSE al(o.x, o.zi, o.li) + SumOver([m \in 1..Len(o.zji) |-> al(o.x, o.zji[m], o.lji[m])])
    IN Need(Close(o.f, want, 100), "objective.coordination", <<o.f, want>>)

Judge(r) ==
    LET step(acc, q) ==
          LET al == [cur |-> acc.alpha, next |-> AlphaNext(acc.alpha)]
              rep == JudgeIt(r, q, al)
          IN [alpha |-> IF q.reset = 1 THEN 10000 ELSE al.next,
              bad |-> IF Len(acc.bad) > 6 THEN acc.bad ELSE acc.bad \o rep]
        res == FoldLeft(step, [alpha |-> 10000, bad |-> <<>>], r.its)
        want == [a \in 1..r.N |-> {b \in 1..r.N : b # a /\ (r.inter = "full" \/ b = (a % r.N) + 1 \/ a = (b % r.N) + 1)}]
    IN Cat(<< Cat([a \in 1..r.N |-> Need(ToSet(r.nb[a]) = want[a], "protocol.neighbours", <<a, r.nb[a]>>)]),
              res.bad,
              Cat([k \in 1..Len(r.obj) |-> JudgeObj(r, r.obj[k])]) >>)

TraceNext == TraceStep(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceVerdict == WriteVerdict
=============================================================================
