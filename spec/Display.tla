------------------------------- MODULE Display -------------------------------
(***************************************************************************)
(* What the local planner draws. Lengths in mm, angles in 1/100 degree,      *)
(* colours in 1/100. The screen keeps, per topic, the last marker of every    *)
(* id: drawing again under the same id replaces what was there.               *)
(***************************************************************************)
EXTENDS Common

SEGMENTS == <<"path_actual", "path_waypoint", "path_adapted_waypoint">>
Show(screen, t, id, m) == [screen EXCEPT ![t] = [i \in DOMAIN @ \cup {id} |-> IF i = id THEN m ELSE @[i]]]

(* the search tree: one edge from every closed node to its parent *)
Edges(tree, closed) == [k \in 1..2 * Len(closed) |-> LET n == tree[closed[(k + 1) \div 2] + 1] IN IF k % 2 = 1 THEN n.p ELSE tree[n.o + 1].p]
(* a path as a list of lines *)
Strokes(path) == [k \in 1..IF Len(path) < 2 THEN 0 ELSE 2 * (Len(path) - 1) |-> path[k \div 2 + 1]]

(* the pyramid of a camera: four triangles from the vehicle to neighbouring corners *)
Corner(c, k, r) == LET e == IF k \in {1, 4} THEN -c.v \div 2 ELSE c.v \div 2  z == IF k \in {1, 2} THEN c.h \div 2 ELSE -c.h \div 2
                   IN FcuToCart(c.p + e, c.y + z, r)
Pyramid(c, r) == [k \in 1..12 |-> CASE k % 3 = 1 -> <<0, 0, 0>> [] k % 3 = 2 -> Corner(c, k \div 3 + 1, r) [] OTHER -> Corner(c, ((k \div 3) % 4) + 1, r)]

(* the range scan: a fan of triangles; unknown is red, nothing seen is green, otherwise the nearer the redder *)
Reach(r, max) == IF r = NaN \/ r > max THEN max ELSE r
Plus3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Fan(pos, rs, max, inc) ==
  [k \in 1..3 * Len(rs) |-> LET i == (k - 1) \div 3 IN
     IF k % 3 = 1 THEN pos
     ELSE Plus3(pos, HistToCart(0, (IF k % 3 = 2 THEN (2 * i + 1) * inc ELSE (2 * i - 1) * inc) \div 2, Reach(rs[i + 1], max)))]
Hues(rs, max) == [k \in 1..3 * Len(rs) |-> LET r == rs[(k - 1) \div 3 + 1] IN
                    IF r = NaN THEN <<100, 0, 0>> ELSE IF r > max THEN <<0, 100, 0>>
                    ELSE <<100 - RDiv(100 * r, max), RDiv(100 * r, max), 0>>]

(* images: one row per elevation, the highest first; three bytes per bin in the cost image *)
Cols == 60
Rows == 30
Byte(bin, colour) == ((Rows - 1 - bin[2]) * Cols + bin[1]) * 3 + colour
Marks(heading, wp, ad) == {Byte(heading, 2)} \cup {Byte(wp, c) : c \in 0..2} \cup {Byte(ad, c) : c \in 1..2}
(* every bin a direction close to a border between two may be counted to *)
AnyBin(e, z, tol) == {ToBin(e + a, z + b, 6) : a \in {-tol, tol}, b \in {-tol, tol}}

StateColour == [loiter |-> <<100, 100, 0>>, path |-> <<0, 100, 0>>, direct |-> <<0, 0, 100>>, altitude |-> <<100, 0, 100>>]
=============================================================================
