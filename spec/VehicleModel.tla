---------------------------- MODULE VehicleModel ----------------------------
(* The motion models of Vehicles.tla, run forward on their own: a vehicle that *)
(* pulls a trailer chooses its speed and turn rate in every step (20 ms).      *)
(* Sanity of the integer arithmetic (Trig) and of the models themselves: a     *)
(* trailer stays one hitch length behind and cannot push sideways, a vehicle   *)
(* that does not steer goes straight, AGV and bicycle are mirror images.       *)
EXTENDS Vehicles
CONSTANT STEPS
VARIABLES s, u, k, a
vars == <<s, u, k, a>>
L4 == 5000
TR == [kind |-> "trailer", len4 |-> L4]
AG == [kind |-> "agv", len4 |-> L4]
BI == [kind |-> "bicycle", len4 |-> L4]
DU == [kind |-> "dubins", len4 |-> L4]
Abs(x) == IF x < 0 THEN -x ELSE x
\* Euler over 20 ms: rates 1e-4/s, states 1e-6: 1e-4 * 0.02 = 2e-6
Euler(st, f) == [j \in 1..Len(st) |-> st[j] + 2*f[j]]
Init == /\ \E th \in {0, 700000, -900000} : s = << 0, 0, 0, 100*Mul(L4, 10000), 0, th >>
        /\ u = <<0, 0>> /\ k = 0 /\ a = -7000000
Next == /\ k < STEPS
        /\ k' = k + 1
        /\ a' = a + (14000000 \div STEPS)
        /\ \E V \in {0, 5000}, w \in {-8000, 0, 8000} :
             /\ (k % 10 # 0) => << V, w >> = u
             /\ u' = <<V, w>>
             /\ s' = Euler(s, Rate(TR, s, u'))
Spec == Init /\ [][Next]_vars
Trig == LET x == Sin(a) y == Cos(a)
        IN /\ Abs(x*x + y*y - 100000000) <= 60000
           /\ Abs(Sin(-a) + x) <= 1
           /\ Abs(Mul(2*x, y) - Sin(2*a)) <= 6
           /\ Abs(Sin(a + 500000) - Mul(x, 8776) - Mul(y, 4794)) <= 6
Sq(x) == (x \div 100) * (x \div 100)
Hitched == LET dx == s[4] - s[1] dy == s[5] - s[2]
               d2 == Sq(dx) + Sq(dy)
           IN Abs(d2 - L4*L4) <= 1200*(L4 \div 5000)*STEPS + 200000
Straight == LET f == Rate(DU, <<0, 0, s[6]>>, <<u[1], 0>>) IN
            Abs(Mul(f[1], Sin(s[6])) - Mul(f[2], Cos(s[6]))) <= 4 /\ f[3] = 0
Circle == LET f == Rate(DU, <<0, 0, s[6]>>, u) IN
          Abs((f[1]*f[1] + f[2]*f[2]) - u[1]*u[1]) <= 40000 /\ f[3] = u[2]
Mirror == LET d == Wrap(s[3]) \div 4
              f == Rate(AG, <<0, 0, s[6], d>>, u)
              g == Rate(BI, <<0, 0, s[6], -d>>, u)
          IN Abs(f[3] - g[3]) <= 2 /\ f[1] = g[1] /\ f[2] = g[2]
=============================================================================
