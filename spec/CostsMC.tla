------------------------------- MODULE CostsMC -------------------------------
(* The steering costs over a lattice of directions, distances and parameters, and the smoothing on a small     *)
(* sphere: what the formulas guarantee.                                                                        *)
EXTENDS Costs
VARIABLES kind, a, b, c
vars == <<kind, a, b, c>>
Pars == [yaw : {50, 300}, pitch : {300, 2500}, vel : {150, 600000}, obst : {5000, 8500}, min : {200}, max : {12000}, margin : {30000}]
P0 == [yaw |-> 300, pitch |-> 2500, vel |-> 600000, obst |-> 8500, min |-> 200, max |-> 12000, margin |-> 30000]
Els == {-8700, -4500, -300, 300, 4500, 8700}
Azs == {-17700, -9300, -300, 300, 9300, 17700}
R == 4
C == 8
Init == \/ kind = "distance" /\ a \in {100 * k : k \in 1..150} /\ b \in {1000, 5000, 8500} /\ c = 0
        \/ kind = "goal" /\ a \in Els \X Azs /\ b \in Els \X Azs /\ c \in {10000, 49999, 50000, 200000}
        \/ kind = "velocity" /\ a \in Els \X Azs /\ b \in {<<0, 0, 0>>, <<1000, 0, 0>>, <<-3000, 2000, 500>>} /\ c \in Pars
        \/ kind = "smooth" /\ a \in 0..R - 1 /\ b \in 0..C - 1 /\ c \in 0..3
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
FartherIsCheaper == kind = "distance" => DistanceCost(a + 100, b) < DistanceCost(a, b) /\ DistanceCost(a, b) > 0 /\ DistanceCost(a, b) <= 100000 /\ DistanceCost(0, b) = 0
HalfWay == kind = "distance" => DistanceCost(b, b) = 50000
Turn(x, y) == OtherCost(x[1], x[2], y, y, c, <<0, 0, 0>>, TRUE, P0)
GoalIsBest == kind = "goal" => Turn(b, b) = 0 /\ Turn(a, b) >= 0 /\ (a # b => Turn(a, b) > 0)
(* turning further away is never cheaper *)
Monotone == kind = "goal" => \A z2 \in Azs : LET x2 == <<a[1], z2>> IN AngDist(z2, b[2]) > AngDist(a[2], b[2]) => Turn(x2, b) > Turn(a, b)
(* the pull towards the goal's height grows near the goal *)
NearIsStronger == kind = "goal" /\ a[1] # b[1] /\ a[2] = b[2] => IF c < 50000 THEN Turn(a, b) >= OtherCost(a[1], a[2], b, b, 60000, <<0, 0, 0>>, TRUE, P0) ELSE Turn(a, b) = OtherCost(a[1], a[2], b, b, 60000, <<0, 0, 0>>, TRUE, P0)
VelocityBounds == kind = "velocity" => LET v == VelocityCost(a[1], a[2], b, c.vel) n == MulDiv(LenT(b), c.vel \div 10, 10000) IN v >= -(n \div 2000) - 1 /\ v <= 2 * n + n \div 1000 + 1
Seam == kind = "velocity" => Abs(VelocityCost(a[1], a[2], b, c.vel) - VelocityCost(a[1], a[2] + 36000, b, c.vel)) <= 1
(* a single obstacle at row a, column b, radius c *)
Point == [n \in 1..R * C |-> IF n = At(C, a, b) THEN 1000 ELSE 0]
Smoothed == SmoothRows(SmoothCols(Point, R, C, c), R, C, c)
Peak == kind = "smooth" => \E s \in {Smoothed} : \A n \in 1..R * C : s[n] <= s[At(C, a, b)]
Spread == kind = "smooth" => \E s \in {Smoothed} : \A n \in 1..R * C :
   LET ze == (n - 1) \div C zz == (n - 1) % C
       reach == \E i \in -c..c, j \in -c..c : Beyond2(R, C, ze + i, zz) = <<a, b>> \/ (LET q == Beyond2(R, C, ze + i, (zz + j + C) % C) IN q = <<a, b>>) IN
   (s[n] > 0) <=> reach
SamePoint == kind = "smooth" => Padded(Point, R, C, a, b) = 1000 /\ Padded(Point, R, C, -1 - a, (b + C \div 2) % C) = 1000 /\ Padded(Point, R, C, 2 * R - 1 - a, (b + C \div 2) % C) = 1000
=============================================================================
