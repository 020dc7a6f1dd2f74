----------------------------- MODULE PathFollow -----------------------------
(***************************************************************************)
(* Following a stored path. A path is a sequence of points (mm) from         *)
(* the far end to the vehicle; the last one is where the vehicle was when    *)
(* the path was made. The setpoint travels with the given speed from the     *)
(* last but one point to the far end.                                       *)
(***************************************************************************)
EXTENDS Num

Seg(p, k) == LenT(Sub3(p[k], p[k + 1]))            \* from point k+1 to point k, 1/10 mm
(* walk: on the segment ending in point k with distance d left. Set of possible <<k, d>> where it stops *)
Slack == 20                                         \* lengths are accurate to 2 mm
RECURSIVE Walk(_, _, _)
Walk(p, k, d) ==
  LET g == Seg(p, k) IN
  (IF k = 1 \/ d <= g + Slack THEN {<<k, d>>} ELSE {})
  \cup (IF k > 1 /\ d > g - Slack THEN Walk(p, k - 1, d - g) ELSE {})
PointOn(p, k, d) == Add3(Scale3(p[k + 1], 10), MulDiv3(Scale3(Sub3(p[k], p[k + 1]), 10), d, Seg(p, k)))
(* possible evaluations: ok (still valid), at (the setpoint, 1/10 mm; <<>> or NaN where there is none) *)
PathEval(p, age, vel) ==                            \* age in ms, vel in mm/s or NaN
  LET n == Len(p) IN
  IF n < 2 THEN {[ok |-> FALSE, at |-> <<>>]}
  ELSE IF n = 2 THEN {[ok |-> TRUE, at |-> Scale3(p[1], 10)]}
  ELSE IF ~IsFinite(vel) THEN {[ok |-> FALSE, at |-> <<NaN, NaN, NaN>>]}
  ELSE UNION { LET g == Seg(p, w[1]) at == PointOn(p, w[1], w[2]) IN
               {[ok |-> b, at |-> at] : b \in (IF w[2] < g - Slack THEN {TRUE} ELSE IF w[2] > g + Slack THEN {FALSE} ELSE BOOLEAN)}
               : w \in Walk(p, n - 2, MulDiv(age, vel, 100)) }
=============================================================================
