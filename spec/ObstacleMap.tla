----------------------------- MODULE ObstacleMap -----------------------------
(***************************************************************************)
(* The histogram over the remembered points and the distance message for     *)
(* the flight controller. A histogram is a set of [e, z, d] with d > 0.        *)
(***************************************************************************)
EXTENDS Memory
Res == 6
Rows == 30
Cols == 60
MeanOf(s) == RDiv(Sum(s), Len(s))                              \* s: distances in 1/10 mm
(* bins of points: <<cell, distance>> pairs *)
HistOf(cells, dist) ==
  {[e |-> c[2], z |-> c[1], d |-> MeanOf(SelectSeq([i \in 1..Len(cells) |-> IF cells[i] = c THEN dist[i] ELSE -1], LAMBDA x : x >= 0))]
   : c \in {cells[i] : i \in 1..Len(cells)}}
(* rows within +-10 degrees of the horizon *)
BandRows == (ToBin(-1000, 0, Res)[2])..(ToBin(1000, 0, Res)[2])
Height(e, d) == RDiv(d * Abs(SinD(OfBin(e, 0, Res)[1])), 10000)
(* obstacles of azimuth bin z close to the vehicle's height (mm); slack widens or narrows the vertical band *)
CloseIn(h, z, slack) == {q.d : q \in {r \in h : r.z = z /\ r.e \in BandRows /\ Height(r.e, r.d) < 1000 + slack}}
Sector(i) == (i + Cols \div 2) % Cols                          \* the message starts at local north, bin 0 is south
(* distance reported for sector z: the set of acceptable values (boundary cases may fall to either side) *)
NearestIn(h, z) == {IF S = {} THEN 0 ELSE MinOf(S) : S \in {CloseIn(h, z, -2), CloseIn(h, z, 2)}}
Reported(h, z, minr, maxr) == {IF d > minr THEN d ELSE maxr + 10 : d \in NearestIn(h, z)}
   \cup {maxr + 10 : d \in {x \in NearestIn(h, z) : Abs(x - minr) <= 1}} \cup {d \in NearestIn(h, z) : Abs(d - minr) <= 1 /\ d > 0}
ColSeen(cams, z, yaw, m) == \E k \in 1..Len(cams) : \E a \in ColumnEdges(z, yaw) :
   2 * AngDist(a, cams[k].y) <= cams[k].h + m /\ 2 * Abs(ColumnElevation - cams[k].p) <= cams[k].v + m
(* grey value of a bin in the histogram image *)
Grey(d, maxr) == IF d <= 10 THEN 0 ELSE Max2(0, Min2(255, 255 - MulDiv(255, d, maxr)))
=============================================================================
