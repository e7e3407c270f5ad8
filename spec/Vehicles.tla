------------------------------ MODULE Vehicles ------------------------------
(* The motion models of the vehicles, as integer kinematics.                  *)
(*   positions, angles   1e-6 m, 1e-6 rad        (suffix 6)                   *)
(*   rates and inputs    1e-4 (m/s, rad/s, ...)  (suffix 4)                   *)
(* Rate(m, s, u) is the time derivative of the state of a vehicle with model  *)
(* m in state s under input u.  The same operators drive the design model     *)
(* (VehicleModel), and judge what the real code publishes (VehicleTrace).     *)
EXTENDS Integers, Sequences
RDiv(a, b) == IF b < 0 THEN -((a + ((-b) \div 2)) \div (-b)) ELSE (a + (b \div 2)) \div b
PI6 == 3141593
\* into (-PI, PI]
RECURSIVE Wrap(_)
Wrap(a) == IF a > PI6 THEN Wrap(a - 2*PI6) ELSE IF a <= -PI6 THEN Wrap(a + 2*PI6) ELSE a
\* sin on [-PI/2, PI/2] by its Taylor polynomial in Horner form; argument in 1e-4 rad, result in 1e-4
SinQ(x) == LET q == RDiv(x * x, 10000)
               t1 == 10000 - RDiv(q, 110)
               t2 == 10000 - RDiv(RDiv(q * t1, 10000), 72)
               t3 == 10000 - RDiv(RDiv(q * t2, 10000), 42)
               t4 == 10000 - RDiv(RDiv(q * t3, 10000), 20)
               t5 == 10000 - RDiv(RDiv(q * t4, 10000), 6)
           IN RDiv(x * t5, 10000)
Sin(a6) == LET w == Wrap(a6)
               x == IF 2*w > PI6 THEN PI6 - w ELSE IF 2*w < -PI6 THEN -PI6 - w ELSE w
           IN SinQ(RDiv(x, 100))
Cos(a6) == Sin(a6 + 1570796)
MulP(a4, b4) == (a4 \div 10000) * b4 + RDiv((a4 % 10000) * b4, 10000)
Mul(a4, b4) == IF a4 < 0 THEN -MulP(-a4, b4) ELSE MulP(a4, b4)        \* both in 1e-4, b at most about 1
G4 == 98100

\* m: [kind, n (states), len4 (wheel base or hitch, 1e-4 m)]
Steer(m, V, d6) == LET c == Cos(d6) IN RDiv(V * Sin(d6), RDiv(m.len4 * c, 10000))
Rate(m, s, u) ==
  CASE m.kind = "direct" -> u
    [] m.kind = "dubins" -> << Mul(u[1], Cos(s[3])), Mul(u[1], Sin(s[3])), u[2] >>
    [] m.kind = "agv" -> << Mul(u[1], Cos(s[3])), Mul(u[1], Sin(s[3])), -Steer(m, u[1], s[4]), u[2] >>
    [] m.kind = "bicycle" -> << Mul(u[1], Cos(s[3])), Mul(u[1], Sin(s[3])), Steer(m, u[1], s[4]), u[2] >>
    [] m.kind = "quad2" -> << RDiv(s[3], 100), RDiv(s[4], 100), Mul(u[1], Sin(s[5])), Mul(u[1], Cos(s[5])) - G4, u[2] >>
    [] m.kind = "quad3" -> LET f == Mul(u[1], Cos(s[7])) IN
           << RDiv(s[4], 100), RDiv(s[5], 100), RDiv(s[6], 100),
              Mul(f, Sin(s[8])), -Mul(u[1], Sin(s[7])), Mul(f, Cos(s[8])) - G4, u[2], u[3] >>
    [] m.kind = "trailer" ->
         LET dt == RDiv(Mul(u[1], Sin(s[6] - s[3])) * 10000, m.len4)
             vx == Mul(u[1], Cos(s[6]))
             vy == Mul(u[1], Sin(s[6]))
             l  == Mul(m.len4, dt)
         IN << vx + Mul(l, Sin(s[3])), vy - Mul(l, Cos(s[3])), dt, vx, vy, u[2] >>
\* where the vehicle is drawn and kept from obstacles
Pose(m, s) ==
  CASE m.pose = "self" -> s
    [] m.pose = "xy0" -> << s[1], s[2], 0 >>
    [] m.pose = "x00" -> << s[1], 0, 0 >>
    [] m.pose = "xyz000" -> << s[1], s[2], s[3], 0, 0, 0 >>
    [] m.pose = "xyt" -> << s[1], s[2], s[3] >>
    [] m.pose = "quad2" -> << s[1], s[2], -s[5] >>
    [] m.pose = "quad3" -> << s[1], s[2], s[3], s[7], s[8], 0 >>
\* arrived: at the goal and at rest (a hovering quadrotor balances gravity)
\* x: the coordinates that have a goal, minus that goal; v: what has to vanish (1e-4)
RECURSIVE Norm2(_, _)
Norm2(x, k) == IF k > Len(x) THEN 0 ELSE x[k]*x[k] + Norm2(x, k+1)
Within(x, tol) == Norm2(x, 1) <= tol*tol
=============================================================================
