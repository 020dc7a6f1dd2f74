--------------------------- MODULE LandingDisplayMC ---------------------------
(***************************************************************************)
(* A grid is filled one cell after the other and drawn. Checked: the drawing  *)
(* covers the grid without gap or overlap, colours order cells by what they    *)
(* show, what must not be landed on is never green, exactly the block around   *)
(* the vehicle stands out.                                                    *)
(***************************************************************************)
EXTENDS LandingDisplay
CONSTANTS SIDES, CELLS, SMOOTH, THRESHOLDS, SPREADS, MINIMA, COUNTS
VARIABLES n, cell, k, land, sigma, cnt, thr, npts, smooth, seen
vars == <<n, cell, k, land, sigma, cnt, thr, npts, smooth, seen>>
Min == <<-700, 300, 0>>
Init == /\ n \in SIDES /\ cell \in CELLS /\ k = 0 /\ smooth \in SMOOTH /\ thr \in THRESHOLDS /\ npts \in MINIMA
        /\ land = 0 /\ sigma = 0 /\ cnt = 0 /\ seen = {}
Draw == /\ k < n * n /\ k' = k + 1
        /\ \E a \in 0..1 : \E s \in SPREADS : \E c \in COUNTS : land' = a /\ sigma' = s /\ cnt' = c
        /\ seen' = seen \cup {Centre(k, n, Min, cell, 0)}
        /\ UNCHANGED <<n, cell, thr, npts, smooth>>
Next == Draw
Spec == Init /\ [][Next]_vars
Tiles == /\ Cardinality(seen) = k
         /\ \A p \in seen : (p[1] - Min[1] - cell \div 2) % cell = 0 /\ (p[2] - Min[2] - cell \div 2) % cell = 0
         /\ \A p \in seen : Min[1] < p[1] /\ p[1] < Min[1] + n * cell /\ Min[2] < p[2] /\ p[2] < Min[2] + n * cell
GreenMeansLand == (LandColour(land) = <<0, 100, 0>>) <=> land = 1
(* every colour of the circle is pure: one channel full, one empty *)
Pure(c) == /\ \A i \in 1..3 : c[i] \in 0..100
           /\ (c = Black \/ ((\E i \in 1..3 : c[i] = 100) /\ (\E i \in 1..3 : c[i] = 0)))
Colours == /\ Pure(SpreadColour(sigma, thr)) /\ \A c \in CountColours(cnt, npts) : Pure(c)
           /\ (sigma > thr \/ thr = 0 <=> SpreadColour(sigma, thr) = Black)
           /\ (npts < FULL /\ cnt >= npts => Black \notin CountColours(cnt, npts))
           /\ (npts < FULL /\ cnt < npts => Black \in CountColours(cnt, npts))
           /\ (cnt = npts /\ npts # FULL => CountColours(cnt, npts) = {Wheel(0)})
(* different spreads below the threshold look different *)
Tell == \A s, t \in SPREADS : s < t /\ t < thr /\ RDiv(600 * s, thr) # RDiv(600 * t, thr) => SpreadColour(s, thr) # SpreadColour(t, thr)
Block == Cardinality({c \in 0..n * n - 1 : Raised(c, n, smooth)}) =
           IF smooth <= 0 THEN 0 ELSE LET o == n \div 2 a == Min2(o, smooth) b == Min2(n - o, smooth) IN (a + b) * (a + b)
=============================================================================
