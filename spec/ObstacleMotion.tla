--------------------------- MODULE ObstacleMotion ---------------------------
(* How an obstacle moves: it keeps its acceleration and its turning rate, and *)
(* at given instants its position, velocity and acceleration jump by given    *)
(* amounts.  One coordinate at a time.                                        *)
(*  time 10 ms; position 1e-6 m; velocity 1e-5 m/s; acceleration 1e-3 m/s2     *)
(*  angles 1e-6 rad; turning rate 1e-6 rad/s                                  *)
EXTENDS Integers, Sequences
Rd(a, b) == IF b < 0 THEN -((a + ((-b) \div 2)) \div (-b)) ELSE (a + (b \div 2)) \div b
\* state s = <<p, v, a>> after dt
Glide(s, dt) ==
   << s[1] + Rd(s[2] * dt, 10) + Rd(s[3] * dt * dt, 20), s[2] + s[3] * dt, s[3] >>
Jump(s, e) == << s[1] + e.dp, s[2] + e.dv, s[3] + e.da >>
\* from (s at time t) to time u, over the jumps ev[k..] that fall before u, or at u when incl
RECURSIVE Go(_, _, _, _, _, _)
Go(s, t, u, ev, k, incl) ==
   IF k > Len(ev) \/ ev[k].t > u \/ (ev[k].t = u /\ ~incl) THEN Glide(s, u - t)
   ELSE Go(Jump(Glide(s, ev[k].t - t), ev[k]), ev[k].t, u, ev, k+1, incl)
\* jumps at or before t
Past(ev, t) == Len(SelectSeq(ev, LAMBDA e : e.t <= t))
==============================================================================
