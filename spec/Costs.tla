-------------------------------- MODULE Costs --------------------------------
(***************************************************************************)
(* The steering costs of the local planner. Directions in 1/100 degree       *)
(* (histogram convention), lengths in mm, speeds in mm/s; costs in tenths.    *)
(* par: [yaw, pitch, vel] in 1/100, obst, min, max in mm, margin 1/1000 deg.   *)
(* A matrix with R rows (elevations) and C columns (azimuths) is a flat        *)
(* sequence, row by row.                                                       *)
(***************************************************************************)
EXTENDS Memory, Functions
Res == 6
Rows == 30
Cols == 60
At(C, e, z) == e * C + z + 1                                        \* index of row e, column z (both from 0)

(* ------------------------------------------------------------------ one direction *)
DistanceCost(d, obst) == IF d <= 0 THEN 0 ELSE LET x == obst - d IN 50000 + MulDiv(x, 500000, LenT(<<1000, x, 0>>))
Square(a) == (a * a) \div 100                                        \* 1/100 deg^2
AngleCost(diff, w) == MulDiv(Square(diff), w, 1000)
NearGoal(c, D) == IF D < 50000 THEN MulDiv(MulDiv(c, 50000, D), 50000, D) ELSE c
VelocityCost(e, z, vel, w) ==
  LET u == HistToCart(e, z, 10000) dot == RDiv(u[1] * vel[1] + u[2] * vel[2] + u[3] * vel[3], 1000) IN
  MulDiv(LenT(vel) - dot, w \div 10, 10000)
(* g, ln: directions to the goal and to the projected point; D: distance to the goal in 1/10 mm *)
OtherCost(e, z, g, ln, D, vel, facing, par) ==
  VelocityCost(e, z, vel, par.vel)
  + (IF facing THEN AngleCost(Wrap180(z - g[2]), par.yaw) ELSE AngleCost(Wrap180(z - g[2]), par.yaw) \div 2 + AngleCost(Wrap180(z - ln[2]), par.yaw) \div 2)
  + NearGoal(AngleCost(e - g[1], par.pitch), D)
(* allowance for the integer trigonometry *)
Slack(vel, D, par) == 20 + MulDiv(LenT(vel), par.vel \div 10, 10000) \div 3000 + par.yaw \div 7 + NearGoal(par.pitch \div 7, D)

(* ------------------------------------------------------------------ obstacle in the direction of the goal: hist is a set of [e, z, d] *)
Facing(hist, g, par) ==
  LET S == {ToBin(g[1] + 600 * j, g[2] + 600 * i, Res) : j \in -2..2, i \in -5..5} IN
  \E h \in hist : <<h.z, h.e>> \in S /\ h.d > par.min /\ h.d < par.max

(* ------------------------------------------------------------------ the matrix: rows near the poles are sampled and interpolated *)
StepOf(e) == RDiv(10000, CosD(OfBin(e, 0, Res)[1]))
LastSample(st) == ((Cols - 1) \div st) * st
(* value at column z of a row of which f gives the sampled columns *)
Sampled(st, z, f(_)) ==
  LET a == (z \div st) * st b == a + st k == z - a IN
  IF k = 0 THEN f(a) ELSE LET n == IF b < Cols THEN st ELSE Cols - a t == f(IF b < Cols THEN b ELSE 0) IN f(a) + RDiv((t - f(a)) * k, n)

(* ------------------------------------------------------------------ smoothing *)
(* the sphere continued beyond the poles: the same row seen from the other side *)
Beyond2(R, C, e, z) == IF e < 0 THEN <<-1 - e, (z + C \div 2) % C>> ELSE IF e >= R THEN <<2 * R - 1 - e, (z + C \div 2) % C>> ELSE <<e, z % C>>
Padded(m, R, C, e, z) == LET q == Beyond2(R, C, e, (z + C) % C) IN m[At(C, q[1], q[2])]
Plus(a, b) == a + b
Cone(r, i) == 1 + r - Abs(i)
SmoothCols(m, R, C, r) == [n \in 1..R * C |-> LET e == (n - 1) \div C z == (n - 1) % C IN
                             RDiv(FoldFunction(Plus, 0, [i \in -r..r |-> Cone(r, i) * Padded(m, R, C, e + i, z)]), 1 + r)]
SmoothRows(m, R, C, r) == [n \in 1..R * C |-> LET e == (n - 1) \div C z == (n - 1) % C IN
                             RDiv(FoldFunction(Plus, 0, [i \in -r..r |-> Cone(r, i) * m[At(C, e, (z + i + C) % C)]]), 1 + r)]
Radius(par) == (par.margin + 5999) \div 6000

(* ------------------------------------------------------------------ the point the vehicle is pulled to when it left the line of its mission leg *)
LinePoint(pos, goal, prev, cruise) ==
  LET u == Unit(<<goal[1] - prev[1], goal[2] - prev[2], 0>>)
      t == RDiv(RDiv(u[1] * (pos[1] - prev[1]), 10) + RDiv(u[2] * (pos[2] - prev[2]), 10), 1000)
      c == <<prev[1] + RDiv(u[1] * t, 10000), prev[2] + RDiv(u[2] * t, 10000), goal[3]>> IN
  IF LenXY(Sub3(pos, c)) < cruise \/ LenXY(Sub3(goal, prev)) < 1 THEN goal ELSE c

(* ------------------------------------------------------------------ speed *)
(* u: the speed from which the vehicle stops within the range; u^2 + 2 a (a/j) u = 2 a r; mm and s *)
Stoppable(u, a, j, r) == RDiv(u * u, 1000) + MulDiv(MulDiv(10 * a, a, j), u, 5000) - 2 * RDiv(a * RDiv(r, 10), 100)
=============================================================================
