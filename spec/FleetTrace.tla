----------------------------- MODULE FleetTrace -----------------------------
(* Judges real fleets. Lengths in 1e-4 unless said otherwise.                 *)
EXTENDS Verdict, Fleet
V == INSTANCE Vehicles
Turned(f, th) == IF Len(f) = 2 /\ th # 0
                 THEN << V!RDiv(f[1]*V!Cos(th) + f[2]*V!Sin(th), 10000), V!RDiv(f[2]*V!Cos(th) - f[1]*V!Sin(th), 10000) >> ELSE f
Set(s) == {s[k] : k \in 1..Len(s)}
JudgeFleet(r) == LET f == [l \in 1..r.N |-> Turned(r.conf[l], r.th)] IN
   Cat([l \in 1..r.N |-> Need(Set(r.nb[l]) = Nghb(r.N, r.inter, l-1) /\ Len(r.nb[l]) = Cardinality(Set(r.nb[l])), "neighbours", <<r.N, r.inter, l-1, r.nb[l]>>)])
   \o Cat([l \in 1..r.N |-> Cat([k \in 1..Len(r.nb[l]) |-> LET m == r.nb[l][k] + 1 IN
        Need(Len(r.rel[l][k]) = Len(f[l]) /\ \A d \in 1..Len(f[l]) : Close(r.rel[l][k][d], f[l][d] - f[m][d], 4), "relative",
             <<l-1, m-1, f[l], f[m], r.rel[l][k]>>)])])
   \o Cat([l \in 1..r.N |-> Need(Len(r.toc[l]) = Len(f[l]) /\ \A d \in 1..Len(f[l]) : Close(r.toc[l][d], -f[l][d], 4), "centre", <<l-1, f[l], r.toc[l]>>)])
   \* every vehicle got what was meant for it
   \o Cat([k \in 1..Len(r.got) |-> Need(r.got[k] = r.meant[k], "assigned." \o r.what[k], <<r.meant[k], r.got[k]>>)])
\* r.c[k][l][d]: coefficient k of coordinate d of vehicle l
\* (positions, for a central problem; centres, for agents that coordinate: then r.conf is zero)
Worst(r, k) == LET S == {Abs(Gap(r.c[k], r.conf, l, m, d)) : l \in 1..r.N, m \in 1..r.N, d \in 1..Len(r.conf[1])}
               IN CHOOSE x \in S : \A y \in S : x >= y
JudgePlan(r) == LET w == [k \in 1..Len(r.c) |-> Worst(r, k)] IN
   Need((\A k \in 1..Len(r.c) : w[k] <= r.max) => r.ok, "plan.refused", <<r.N, r.inter, w>>)
   \o Need((\E k \in 1..Len(r.c) : w[k] > (r.N - 1)*r.max + 100) => ~r.ok, "plan.outofformation", <<r.N, r.inter, w>>)
\* samples of an executed motion: r.p[k][l][d]
JudgeRide(r) == ForEach(Len(r.p), LAMBDA k : LET w == Worst([c |-> <<r.p[k]>>, conf |-> r.conf, N |-> r.N], 1) IN
     Need(w <= r.tol, "ride", <<"sample", k, "off", w, r.p[k]>>))
\* rendezvous is over when everybody is where it should be with respect to its neighbours
SumSq(r) == LET T == {<<l, m, d>> : l \in 1..r.N, m \in 1..r.N, d \in 1..Len(r.conf[1])}
                E == {t \in T : (t[2]-1) \in Nghb(r.N, r.inter, t[1]-1)}
                RECURSIVE S(_)
                S(e) == IF e = {} THEN 0 ELSE LET t == CHOOSE t \in e : TRUE g == Gap(r.p, r.conf, t[1], t[2], t[3]) IN g*g + S(e \ {t})
            IN S(E)
JudgeStop(r) == LET s == SumSq(r) IN
   Need(s < 220000 => r.stop, "stop.missed", <<s>>) \o Need(s > 280000 => ~r.stop, "stop.early", <<s, r.p, r.conf>>)
\* a plan with an open end: near the goal, or the meeting place in coordinates that are open, and at rest in the end
JudgeFree(r) == LET n == Len(r.c) D == 1..Len(r.to)
                    off == CHOOSE x \in {Abs(r.c[k][d] - r.to[d]) : k \in 1..n, d \in D} : \A k \in 1..n, d \in D : x >= Abs(r.c[k][d] - r.to[d])
                    moves == \E k \in (n - r.deg + 1)..n, d \in D : Abs(r.c[k][d] - r.c[n][d]) > 20 IN
   Need((off <= r.room /\ ~\E k \in (n - r.deg + 1)..n, d \in D : r.c[k][d] # r.c[n][d]) => r.ok, "free.refused", r)
   \o Need((off > r.room + 2500 \/ (off > r.room + 20 /\ \A k \in 1..n : r.c[k] = r.c[1])) => ~r.ok, "free.elsewhere", r)
   \o Need(moves => ~r.ok, "free.moving", r)
\* a vehicle that turns takes its place along: the centre lies where its place, turned along, says (r.turn: how far it is turned
\* from the orientation the configuration was given for)
JudgeTurned(r) == LET at == << r.p[1] - V!RDiv(r.turn[1]*r.conf[1] - r.turn[2]*r.conf[2], 10000), r.p[2] - V!RDiv(r.turn[2]*r.conf[1] + r.turn[1]*r.conf[2], 10000) >>
                      gap(k) == Max2(Abs(r.told[k][1] - at[1]), Abs(r.told[k][2] - at[2]))
                      n == Len(r.told) IN
   Need((\A k \in 1..n : gap(k) <= 5) => r.ok, "turned.refused", r)
   \o Need(((\A k \in 1..n : gap(k) > 250) \/ \E k \in 1..n : gap(k) > 1900) => ~r.ok, "turned.elsewhere", r)
Judge(r) == CASE r.type = "turned" -> JudgeTurned(r) [] r.type = "free" -> JudgeFree(r) [] r.type = "fleet" -> JudgeFleet(r) [] r.type = "plan" -> JudgePlan(r) [] r.type = "ride" -> JudgeRide(r) [] r.type = "stop" -> JudgeStop(r)
TraceSpec == TraceInit /\ [][TraceStep(Judge)]_tvars
TraceVerdict == WriteVerdict
==============================================================================
