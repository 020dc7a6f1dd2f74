------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Directions, bins, frames and fields of view. Angles are in 1/100 degree *)
(* and lengths in millimetres. A direction in the histogram convention has *)
(* its azimuth measured clockwise (seen from above) from the y axis and    *)
(* its elevation positive upwards; in the flight-controller convention the *)
(* azimuth is measured counter-clockwise from the x axis and the elevation *)
(* is positive downwards.                                                  *)
(***************************************************************************)
EXTENDS Trig

HistToCart(e, z, r) == <<Mul4(r, Mul4(CosD(e), SinD(z))), Mul4(r, Mul4(CosD(e), CosD(z))), Mul4(r, SinD(e))>>
FcuToCart(e, z, r) == <<Mul4(r, Mul4(CosD(e), CosD(z))), Mul4(r, Mul4(CosD(e), SinD(z))), Mul4(r, SinD(e))>>

(* elevation into [-90, 90], flipping the azimuth when passing over a pole *)
WrapPolar(e, z) ==
  LET we == Wrap180(e) wz == Wrap180(z) flip == IF wz < 0 THEN wz + 18000 ELSE wz - 18000 IN
  IF we > 9000 THEN <<18000 - we, flip>> ELSE IF we < -9000 THEN <<-18000 - we, flip>> ELSE <<we, wz>>

Bins(res) == <<360 \div res, 180 \div res>>                       \* azimuth bins, elevation bins
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))
ToBin(e, z, res) ==                                               \* <<azimuth bin, elevation bin>>
  LET w == WrapPolar(e, z) IN
  <<Clamp((w[2] + 18000) \div (100 * res), 0, 360 \div res - 1), Clamp((w[1] + 9000) \div (100 * res), 0, 180 \div res - 1)>>
OfBin(ei, zi, res) == <<100 * (ei * res + res \div 2) - 9000, 100 * (zi * res + res \div 2) - 18000>>   \* <<elevation, azimuth>>

(* ------------------------------------------------------------------ fields of view: [y, p, h, v] *)
InYaw(f, z) == 2 * AngDist(z, f.y) <= f.h
InFov(f, e, z) == InYaw(f, z) /\ 2 * Abs(e - f.p) <= f.v
Seeing(fs, z) == {k \in 1..Len(fs) : InYaw(fs[k], z)}
InAnyYaw(fs, z) == Seeing(fs, z) # {}
InAny(fs, e, z) == \E k \in 1..Len(fs) : InFov(fs[k], e, z)
Unique(fs, z) == IF Cardinality(Seeing(fs, z)) = 1 THEN CHOOSE k \in Seeing(fs, z) : TRUE ELSE 0
HalfBin == 300                                                    \* half a fine bin
(* the direction just beyond the edge of camera k on the side where z lies *)
Beyond(f, side) == f.y + side * (f.h \div 2 + HalfBin)
Sides(f, z) == LET d == Wrap180(z - f.y) IN IF d > 0 THEN {1} ELSE IF d < 0 /\ d # -18000 THEN {-1} ELSE {-1, 1}
(* camera on whose outer edge z lies, or 0; a direction exactly on the axis may be counted to either side *)
EdgeOf(fs, z) == LET k == Unique(fs, z) IN
  IF k = 0 THEN {0} ELSE {IF InAnyYaw(fs, Beyond(fs[k], s)) THEN 0 ELSE k : s \in Sides(fs[k], z)}
(* visibility scale, 1/10000 *)
ScaleOf(fs, z, edge) == IF edge # 0 THEN Max2(0, 10000 - RDiv(2 * 10000 * Min2(AngDist(z, fs[edge].y), fs[edge].h \div 2), fs[edge].h))
                        ELSE IF InAnyYaw(fs, z) THEN 10000 ELSE 0
(* a histogram column is visible when one of its edges is, at the elevation of the row above the horizon *)
ColumnEdges(idx, yaw) == {9000 - (100 * (6 * idx + 3) - 18000) - yaw + s * HalfBin : s \in {-1, 1}}
ColumnElevation == -300

(* growing an automatically estimated field of view from the outermost points (flight-controller directions) *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Arc(az) ==
  LET next(a) == IF \E b \in az : b > a THEN MinOf({b \in az : b > a}) ELSE MinOf(az) + 36000
      gap == MaxOf({next(a) - a : a \in az})
      last == CHOOSE a \in az : next(a) - a = gap
  IN [open |-> 36000 - gap, mid |-> Wrap180(next(last) + (36000 - gap) \div 2)]
Grow(f, dirs) ==
  IF dirs = {} THEN f ELSE
  LET arc == Arc({Wrap180(d[2]) : d \in dirs}) el == {d[1] : d \in dirs}
      vd == MaxOf(el) - MinOf(el)
  IN [y |-> IF arc.open > f.h THEN arc.mid ELSE f.y,
      h |-> Max2(f.h, arc.open),
      p |-> IF vd > f.v THEN (MaxOf(el) + MinOf(el)) \div 2 ELSE f.p,
      v |-> Max2(f.v, vd)]
=============================================================================
