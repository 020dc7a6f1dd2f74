------------------------------ MODULE CellsMC ------------------------------
(* laws of cells, neighbourhoods, distances and edges on a lattice around the origin *)
EXTENDS Cells, TLC
CONSTANTS R, Sizes
Box == (-R..R) \X (-R..R) \X (-R..R)
Cs == {<<0, 0, 0>>, <<1, 0, 0>>, <<-1, 1, 0>>, <<0, 1, -1>>, <<2, -1, 1>>}
VARIABLES a, b, s
Init == a \in Cs /\ b = <<0, 0, 0>> /\ s \in Sizes
Next == b' \in Box /\ UNCHANGED <<a, s>>
Spec == Init /\ [][Next]_<<a, b, s>>
(* a position belongs to exactly one cell, the centre to its own *)
Partition == /\ CellOf(Centre(a, s), s) = a
             /\ \A o \in {-2 * s, 0, 2 * s - 1} : CellOf([k \in Axis |-> Centre(a, s)[k] + o], s) = a
             /\ CellOf([k \in Axis |-> Centre(a, s)[k] + 2 * s], s) = Plus(a, <<1, 1, 1>>)
Ordered == /\ ~(Less(a, b) /\ Less(b, a)) /\ ((~Less(a, b) /\ ~Less(b, a)) <=> a = b)
           /\ \A c \in Cs : Less(a, b) /\ Less(b, c) => Less(a, c)
Neighbours == /\ (b \in Around(a)) <=> (a \in Around(b))
              /\ Cardinality(Around(a)) = 10 /\ a \notin Around(a)
              /\ DiagonalsOf(a) \subseteq Around(a)
              /\ \A r \in 0..3 : /\ (b \in FlowOf(a, r)) <=> (a \in FlowOf(b, r))
                                 /\ a \in FlowOf(a, r)
                                 /\ (MaxNorm(Diff(a, b)) > r => b \notin FlowOf(a, r))
                                 /\ LET d == Diff(a, b) IN d[1] * d[1] + d[2] * d[2] + d[3] * d[3] <= r * r => b \in FlowOf(a, r)
Tol == 60
Metric == /\ Dist3(a, b, s) = Dist3(b, a, s) /\ DiagDist3(a, b, s) = DiagDist3(b, a, s)
          /\ (Dist3(a, b, s) = 0 <=> a = b) /\ Dist2(a, b, s) <= Dist3(a, b, s) + 1
          /\ Dist2(a, b, s) <= DiagDist2(a, b, s) + Tol
          /\ \A c \in Cs : /\ Dist3(a, b, s) <= Dist3(a, c, s) + Dist3(c, b, s) + Tol
                           /\ DiagDist3(a, b, s) <= DiagDist3(a, c, s) + DiagDist3(c, b, s) + Tol
(* the planar distance is the length of the shortest walk over neighbours: one step changes it by at most the step *)
WalkBound == \A v \in Around(a) : DiagDist2(a, b, s) <= DiagDist2(v, b, s) + Dist2(a, v, s) + Tol
(* the swept cells: the far end, and an unbroken chain from the near one *)
Touch(x, y) == MaxNorm(Diff(x, y)) <= 1
(* short edges have no probe on a border *)
Sharp == a # b /\ MaxNorm(Diff(a, b)) <= 4 => OffBorders(a, b, s)
Chain == a # b => LET w == Swept(a, b, s) IN
         /\ a \in w
         /\ \E x \in w : Touch(x, b)
         /\ \A x \in w : \A k \in Axis : Min2(a[k], b[k]) - 1 <= x[k] /\ x[k] <= Max2(a[k], b[k]) + 1
         /\ \A x \in w : x # a => \E y \in w : y # x /\ Touch(x, y) /\ MaxNorm(Diff(y, a)) <= MaxNorm(Diff(x, a))
Turns == LET d == Diff(a, b) IN \A e \in Steps : /\ Rotation(d, e) = Rotation(e, d) /\ Rotation(d, e) >= 0 /\ Rotation(e, e) = 0
                                                 /\ Turn(d, e) <= 40001
Goals == \A r \in {500, 1000, 3000} : /\ (r > 0 => WithinPlan(a, r, a, s))
                                      /\ (WithinPlan(a, r, b, s) => WithinPosition(a, r, Centre(b, s), s))
                                      /\ WithinPlan(a, r, b, s) = WithinPlan(b, r, a, s)
Speed == \A k \in {"Node", "SpeedNode"} : LET n == Successors(k, a, b, s, 5000) IN
            /\ (k = "Node" => n = Around(a))
            /\ \A v \in n : k = "SpeedNode" => MaxNorm(Diff(Diff(v, a), Diff(a, b))) <= 1      \* velocity changes by one step
Laws == Sharp /\ Partition /\ Ordered /\ Neighbours /\ Metric /\ WalkBound /\ Chain /\ Turns /\ Goals /\ Speed
=============================================================================
