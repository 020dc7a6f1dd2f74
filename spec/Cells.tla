------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* The cells of the global planner, the edges between them (search nodes) and *)
(* goal regions. A cell is a triple of indices. The size of a cell is S half   *)
(* metres (S = 1, 2, 4); positions are in eighths of a metre; distances in     *)
(* 1/10 mm; angles in 1/100000 rad.                                            *)
(***************************************************************************)
EXTENDS Num, FiniteSets, Sequences

Axis == {1, 2, 3}
(* the cell that contains a position (eighths of a metre): 4 S of them per cell *)
CellOf(p, s) == [k \in Axis |-> p[k] \div (4 * s)]
(* centre of a cell, eighths of a metre *)
Centre(c, s) == [k \in Axis |-> 4 * s * c[k] + 2 * s]
Diff(a, b) == [k \in Axis |-> a[k] - b[k]]
Plus(a, b) == [k \in Axis |-> a[k] + b[k]]
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])

-----------------------------------------------------------------------------
(* neighbourhoods *)
Planar == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>}
Diagonal == {<<1, 1, 0>>, <<-1, 1, 0>>, <<1, -1, 0>>, <<-1, -1, 0>>}
Vertical == {<<0, 0, 1>>, <<0, 0, -1>>}
Steps == Planar \cup Diagonal \cup Vertical
Around(c) == {Plus(c, d) : d \in Steps}
DiagonalsOf(c) == {Plus(c, d) : d \in Diagonal}
(* the cells whose risk reaches a cell: the ball of a radius, rounded up column by column *)
CeilRoot(n) == IF n <= 0 THEN 0 ELSE LET r == ISqrt(n) IN IF r * r = n THEN r ELSE r + 1
Ball(r) == UNION {{<<x, y, z>> : z \in (- CeilRoot(r * r - x * x - y * y))..CeilRoot(r * r - x * x - y * y)} :
                  <<x, y>> \in {q \in (-r..r) \X (-r..r) : Abs(q[2]) <= CeilRoot(r * r - q[1] * q[1])}}
FlowOf(c, r) == {Plus(c, d) : d \in Ball(r)}

-----------------------------------------------------------------------------
(* distances between the centres *)
Tenth(d, s) == [k \in Axis |-> 5000 * s * d[k]]               \* index difference in 1/10 mm
Dist3(a, b, s) == Len3(Tenth(Diff(a, b), s))
Dist2(a, b, s) == LenXY(Tenth(Diff(a, b), s))
DiagDist2(a, b, s) == LET x == 5000 * s * Abs(a[1] - b[1]) y == 5000 * s * Abs(a[2] - b[2]) IN
                      x + y - MulDiv(Min2(x, y), 585786, 1000000)
DiagDist3(a, b, s) == DiagDist2(a, b, s) + 5000 * s * Abs(a[3] - b[3])
(* from the centre to a position, eighths of a metre *)
Manhattan(c, p, s) == LET m == Centre(c, s) IN Abs(m[1] - p[1]) + Abs(m[2] - p[2]) + Abs(m[3] - p[3])
AngleOf(d) == Atan2(2000 * d[2], 2000 * d[1])

(* a goal: cell g of radius r (mm) contains *)
WithinPlan(g, r, c, s) == 2 * 125 * Manhattan(g, Centre(c, s), s) < r
WithinPosition(g, r, p, s) == 125 * Manhattan(g, p, s) < r

-----------------------------------------------------------------------------
(* an edge from a parent to a cell *)
MaxNorm(d) == Max2(Max2(Abs(d[1]), Abs(d[2])), Abs(d[3]))
(* cells swept by the vehicle: two probes per cell of the longest axis; four points 0.1 m around the line each *)
Swept(c, p, s) ==
  LET d == Diff(c, p) n == 2 * MaxNorm(d)
      at(k, i, o) == p[k] + ((5 * s * n + 10 * s * d[k] * i + 2 * n * o) \div (10 * s * n))
  IN UNION {{<<at(1, i, ox), at(2, i, oy), at(3, i, 0)>> : <<ox, oy>> \in {-1, 1} \X {-1, 1}} : i \in 1..n}
(* no probe lies exactly on a border of two cells (those may fall on either side; edges of up to 4 cells have none) *)
OffBorders(c, p, s) ==
  LET d == Diff(c, p) n == 2 * MaxNorm(d)
  IN \A k \in {1, 2} : \A i \in 1..n : \A o \in {-1, 1} : (5 * s * n + 10 * s * d[k] * i + 2 * n * o) % (10 * s * n) # 0
(* turn between two edges, in 1/10000 of 45 degrees *)
Level(d) == d[1] = 0 /\ d[2] = 0
Turn(d, e) == IF Level(d) \/ Level(e) THEN 0
              ELSE MulDiv(Abs(WrapPi(AngleOf(e) - AngleOf(d))), 10000, 78540)
Rotation(d, e) == Turn(d, e) + (IF (d[3] = 0) # (e[3] = 0) THEN 5000 ELSE 0)

(* identity of search nodes of the kinds Node, NodeWithoutSmooth, SpeedNode *)
SameNode(kind, c, p, c2, p2) == c = c2 /\ (kind = "NodeWithoutSmooth" \/ p = p2)
NodeLess(c, p, c2, p2) == Less(c, c2) \/ (c = c2 /\ Less(p, p2))
RotationOf(kind, d, e) == IF kind = "NodeWithoutSmooth" THEN 0 ELSE Rotation(d, e)
(* successors of the node <<c, p>>; r: longest edge of a speed node (mm) *)
Successors(kind, c, p, s, r) ==
  IF kind # "SpeedNode" THEN Around(c)
  ELSE LET x == Plus(c, Diff(c, p)) IN
       {x} \cup {v \in Around(x) : LET d == Diff(v, c) m == d[1] * d[1] + d[2] * d[2] + d[3] * d[3] IN
                                   m > 0 /\ m * s * s * 250000 < r * r}
=============================================================================
