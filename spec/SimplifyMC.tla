----------------------------- MODULE SimplifyMC -----------------------------
(***************************************************************************)
(* Simplification and smoothing of every short path over neighbouring cells    *)
(* of a small box with one risky cell: whatever the margin and the number of    *)
(* rounds, the result keeps the first two points, the end and the order; it is   *)
(* stable after enough rounds; without turning cost and margin it never costs    *)
(* more than the path; corners are replaced by curves inside their hull.          *)
(***************************************************************************)
EXTENDS GlobalPlanner, TLC
CONSTANTS MaxLen, Turning, Box
Flat == (0..2) \X (0..1) \X {2}
Tall == (0..2) \X {1} \X (2..3)
Both == (0..2) \X (0..1) \X (2..3)
Risky == {<<1, 0, 2>>, <<1, 1, 3>>}
Q == [s |-> 2, alt |-> 9, mr |-> 100000000, sm |-> Turning, rf |-> 10000, flow |-> 0, pen |-> 50, up |-> 30, down |-> 10, rr |-> 500, sr |-> 5000]
W == [m |-> <<>>, has |-> TRUE, rh |-> 2, occ |-> {}]
Rk == [c \in Box |-> IF c \in Risky THEN 30000000 ELSE 1000000]
VARIABLE path
Init == path \in {<<c>> : c \in Box}
Next == /\ Len(path) < MaxLen /\ \E c \in Around(path[Len(path)]) \cap Box : path' = Append(path, c)
Spec == Init /\ [][Next]_path
Calm == [c \in Box |-> FALSE]
Of(margin, rounds) == Simplify(path, rounds, Calm, Rk, W, Q, margin)
(* o is path with some points left out *)
RECURSIVE Sub(_, _)
Sub(o, p) == IF o = <<>> THEN TRUE ELSE IF p = <<>> THEN FALSE ELSE IF o[1] = p[1] THEN Sub(Tail(o), Tail(p)) ELSE Sub(o, Tail(p))
Cost(p) == PathCost("Node", p, Calm, Rk, W, Q)
Margins == {900, 1010}
Faithful == \A margin \in Margins : \A n \in {1, 10} : \E R \in {Of(margin, n)} :
              R # {} /\ \A o \in R : /\ Len(o) <= Len(path) /\ Sub(o, path) /\ o[Len(o)] = path[Len(path)] /\ o[1] = path[1]
                                     /\ (Len(path) > 1 => o[2] = path[2])
(* after as many rounds as points another one changes nothing *)
Stable == \A margin \in {1010} : \A o \in Of(margin, MaxLen) : o \in Simplify(o, 1, Calm, Rk, W, Q, margin)
(* without any margin nothing goes, unless it runs back and forth *)
Kept == Of(0, 10) = {path} \/ \E i \in 3..Len(path) : path[i] = path[i - 2]
Moves(p) == \A i \in 2..Len(p) : p[i] # p[i - 1]
Cheaper == Turning = 0 => \A o \in Of(1000, 10) : Moves(o) => Cost(o) <= Cost(path) + 200 * Len(path)
(* the curve of a corner starts and ends in the middles of its edges and stays between its points *)
Within(a, b, c, x) == \A k \in Axis : LET lo == Min2(Min2(a[k], b[k]), c[k]) hi == Max2(Max2(a[k], b[k]), c[k]) IN x[k] >= lo - 1 /\ x[k] <= hi + 1
Corner == Len(path) >= 3 =>
  LET n == Len(path) p0 == Mid(path[n - 2], path[n - 1], 2) p1 == At(path[n - 1], 2) p2 == Mid(path[n - 1], path[n], 2)
  IN /\ Curve(p0, p1, p2, 0, 10) = p0 /\ Curve(p0, p1, p2, 10, 10) = p2
     /\ \A i \in 0..10 : Within(p0, p1, p2, Curve(p0, p1, p2, i, 10))
YawsEnd == Len(path) >= 2 => LET y == Yaws(path, 7) IN y[Len(path)] = y[Len(path) - 1]
=============================================================================
