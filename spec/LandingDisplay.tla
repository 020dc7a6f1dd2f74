---------------------------- MODULE LandingDisplay ----------------------------
(***************************************************************************)
(* What the landing planner draws: its grid three times (where it would land, *)
(* height and spread, number of points), the points and the way flown.        *)
(* Lengths in mm, colours in 1/100. Cell k of the drawing, counted from 0, is  *)
(* cell (k \div n, k % n) of the grid.                                         *)
(***************************************************************************)
EXTENDS Common

Row(k, n) == k \div n
Col(k, n) == k % n
Middle(min, cell, i) == min + i * cell + cell \div 2
Centre(k, n, min, cell, z) == <<Middle(min[1], cell, Row(k, n)), Middle(min[2], cell, Col(k, n)), z>>

Black == <<0, 0, 0>>
(* the colour circle: t is the hue in 1/100 of a sixth of a turn *)
Wheel(t) == LET u == t % 600 f == t % 100 IN
  CASE u < 100 -> <<100, f, 0>> [] u < 200 -> <<100 - f, 100, 0>> [] u < 300 -> <<0, 100, f>>
    [] u < 400 -> <<0, 100 - f, 100>> [] u < 500 -> <<f, 0, 100>> [] OTHER -> <<100, 0, 100 - f>>

LandColour(land) == IF land # 0 THEN <<0, 100, 0>> ELSE <<100, 0, 0>>
(* cells whose decision the smoothing around the vehicle uses stand out *)
Raised(k, n, s) == LET o == n \div 2 IN o - s <= Row(k, n) /\ Row(k, n) < o + s /\ o - s <= Col(k, n) /\ Col(k, n) < o + s
Height(k, n, s) == IF Raised(k, n, s) THEN 800 ELSE 100

(* one turn of the circle from no spread to the threshold, black above it (and when there is no threshold) *)
SpreadColour(sigma, thr) == IF sigma > thr \/ thr = 0 THEN Black ELSE Wheel(RDiv(600 * sigma, thr))
(* one turn from the threshold to FULL points, black below *)
FULL == 400
CountColours(cnt, npts) ==
  LET d == FULL - npts c == cnt - npts IN
  IF d = 0 THEN {Black}
  ELSE IF c = 0 \/ (c < 0) = (d < 0) THEN {Wheel(RDiv(600 * Abs(c), Abs(d)))}
  ELSE IF c % Abs(d) = 0 THEN {Black, Wheel(0)} ELSE {Black}
=============================================================================
