---------------------------- MODULE TrajectorySim ----------------------------
(***************************************************************************)
(* The trajectory simulator: constant-jerk steps under limits of velocity,     *)
(* acceleration and jerk. Positions, velocities, accelerations and jerks in     *)
(* 1/10000 (m, m/s, m/s^2, m/s^3), times in microseconds.                       *)
(* lim: [up, down, xy, acc, jerk, step]                                         *)
(***************************************************************************)
EXTENDS Num
(* the acceleration the simulation stays below, in 1/1000 and in 1/10000 *)
TopAcc3(lim) == Min2(RDiv(RootT(10000 * lim.jerk), 50), RDiv(lim.acc, 10))
TopAcc(lim) == Min2(RDiv(RootT(10000 * lim.jerk), 5), lim.acc)
Shrunk(v) == LET k == 1 + Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3])) \div 500000 IN <<RDiv(v[1], k), RDiv(v[2], k), RDiv(v[3], k)>>
Clamp3(v, n) == IF LenT(v) <= 10 * n THEN v ELSE MulDiv3(Unit(Shrunk(v)), n, 10000)
Hypot(a, b) == RDiv(LenT(<<a, b, 0>>), 10)
(* the velocity steered for; u: direction of the goal, length 10000 or the zero vector *)
Wanted(u, lim) ==
  LET f == Hypot(lim.xy, IF u[3] > 0 THEN lim.up ELSE lim.down)
      w == MulDiv3(u, f, 10000)
      xy == Clamp3(<<w[1], w[2], 0>>, lim.xy) IN
  <<xy[1], xy[2], Min2(lim.up, Max2(lim.down, w[3]))>>
(* gain on the velocity error (1/1000), gain on the acceleration (1/10000) *)
Gain(want, lim) ==
  LET s == Len3(want) a == RDiv(TopAcc3(lim), 10)
      root == RootT(a * a + RDiv(lim.jerk, 100) * RDiv(s, 100)) IN MulDiv(lim.jerk, 1000, root + TopAcc3(lim))
Damp(gain) == 2 * RootT(1000 * gain)
Pull(st, want, gain) == MulDiv3(Sub3(want, st.v), gain, 1000)
Brake(st, damp) == MulDiv3(st.a, -damp, 10000)
Jerk(st, want, gain, damp, lim) == Clamp3(Add3(Pull(st, want, gain), Brake(st, damp)), lim.jerk)
(* constant-jerk motion from st to an acceleration a2 over t microseconds *)
OverT(v, t) == MulDiv3(v, t, 1000000)
Div3(v, n) == <<RDiv(v[1], n), RDiv(v[2], n), RDiv(v[3], n)>>
Moved(st, a2, t) ==
  [p |-> Add3(Add3(st.p, OverT(st.v, t)), Div3(OverT(OverT(Add3(Scale3(st.a, 2), a2), t), t), 6)),
   v |-> Add3(st.v, Div3(OverT(Add3(st.a, a2), t), 2)), a |-> a2]
(* one step: a full one with the jerk asked for if the acceleration stays below its limit; otherwise one cut short when the
   limit is reached; at the limit a full one with constant acceleration. The set of [a, t] possible with the allowance w *)
After(st, j, t) == Add3(st.a, OverT(j, t))
Steps(st, j, lim, w) ==
  LET top == TopAcc(lim) asked == LenT(After(st, j, lim.step)) now == LenT(st.a)
      full == {[a |-> After(st, j, lim.step), t |-> lim.step]}
      cut == {[a |-> After(st, j, t), t |-> t] : t \in {Min2(lim.step, MulDiv(10 * top - now, 1000000, LenT(j)))}}
      hold == {[a |-> st.a, t |-> lim.step]} IN
  (IF asked <= 10 * (top + w) THEN full ELSE {})
  \cup (IF asked >= 10 * (top - w) /\ now < 10 * top THEN cut ELSE {})
  \cup (IF asked >= 10 * (top - w) /\ (now >= 10 * (top - w) \/ asked <= 10 * (top + w)) THEN hold ELSE {})
=============================================================================
