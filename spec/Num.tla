-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact scaled arithmetic within TLC's 32-bit integers. The fine unit of    *)
(* length is 1/10 mm (and 1/10 mm/s), of angle 1/100000 rad ("y5").          *)
(***************************************************************************)
EXTENDS Trig

(* a * b / c, rounded; |a| any, |b| <= 10^6, 0 < c <= 10^6 *)
MD(a, b, c) == LET q == a \div c r == a % c hi == b \div 1000 lo == b % 1000 t == r * hi IN
               q * b + (t \div c) * 1000 + (((t % c) * 1000) + (r * lo) + (c \div 2)) \div c
MulDiv(a, b, c) == LET m == MD(Abs(a), Abs(b), c) IN IF (a < 0) # (b < 0) THEN -m ELSE m

Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scale3(a, k) == <<k * a[1], k * a[2], k * a[3]>>
MulDiv3(a, b, c) == <<MulDiv(a[1], b, c), MulDiv(a[2], b, c), MulDiv(a[3], b, c)>>

(* square root of n in tenths; n < 2^31 *)
RootT(n) == LET r == ISqrt(n) IN IF r = 0 THEN 0 ELSE 10 * r + ((n - r * r) * 10) \div (2 * r + 1)
(* length, in tenths of the unit of the components (components up to 10^6) *)
LenT(v) == LET m == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3])) k == 1 + m \div 26000 IN
           IF k = 1 THEN RootT(v[1] * v[1] + v[2] * v[2] + v[3] * v[3])
           ELSE LET a == RDiv(v[1], k) b == RDiv(v[2], k) c == RDiv(v[3], k) IN k * RootT(a * a + b * b + c * c)
(* length in the unit of the components *)
Len3(v) == RDiv(LenT(v), 10)
LenXY(v) == RDiv(LenT(<<v[1], v[2], 0>>), 10)
(* v scaled to length 10000; the zero vector stays *)
Unit(v) == LET m == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3])) n == LenT(v) IN
           IF n = 0 THEN <<0, 0, 0>> ELSE IF n <= 1000000 THEN MulDiv3(v, 100000, n) ELSE MulDiv3(v, 10000, n \div 10)

(* angle of the vector <<x, y>> in 1/100000 rad, error below 20; 0 for the zero vector *)
HalfPi == 157080
Pi5 == 314159
ArcSin45(s) ==    \* 0 <= s <= 7200 (scaled 10000)
  LET k == CHOOSE k \in 0..46 : SinTab[k + 1] <= s /\ s < SinTab[k + 2]
  IN RDiv(k * 174533, 100) + RDiv((s - SinTab[k + 1]) * 1745, SinTab[k + 2] - SinTab[k + 1])
Atan2(y, x) ==
  IF x = 0 /\ y = 0 THEN 0 ELSE
  LET u == Unit(<<x, y, 0>>) ax == Abs(u[1]) ay == Abs(u[2])
      q == IF ay <= ax THEN ArcSin45(ay) ELSE HalfPi - ArcSin45(ax)
      h == IF x >= 0 THEN q ELSE Pi5 - q
  IN IF y >= 0 THEN h ELSE -h
WrapPi(a) == ((a + Pi5) % (2 * Pi5)) - Pi5
Rad5(c) == MulDiv(c, 174533, 10000)      \* from 1/100 degree
CDeg(y) == MulDiv(y, 10000, 174533)      \* to 1/100 degree
=============================================================================
