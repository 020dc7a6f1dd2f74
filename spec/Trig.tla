-------------------------------- MODULE Trig --------------------------------
(* Integer trigonometry: angles in 1/100 degree, values scaled by 10000 (error below 1.5 units). *)
EXTENDS VPLib
SinTab == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
SinQ(a) == LET d == a \div 100 f == a % 100 IN      \* 0 <= a <= 9000
           IF d = 90 THEN 10000 ELSE SinTab[d + 1] + RDiv((SinTab[d + 2] - SinTab[d + 1]) * f, 100)
SinD(a) == LET m == a % 36000 IN
           IF m <= 9000 THEN SinQ(m) ELSE IF m <= 18000 THEN SinQ(18000 - m)
           ELSE IF m <= 27000 THEN -SinQ(m - 18000) ELSE -SinQ(36000 - m)
CosD(a) == SinD(a + 9000)
Wrap180(a) == ((a + 18000) % 36000) - 18000          \* into [-180, 180) degrees
AngDist(a, b) == Abs(Wrap180(a - b))                   \* smallest rotation between two directions
(* |v|^2 without overflow is not available in 32 bits: integer square root of a sum of squares *)
ISqrt(n) == LET RECURSIVE F(_, _)                      \* floor(sqrt(n)), 0 <= n < 2^31
                F(lo, hi) == IF hi - lo <= 1 THEN lo
                             ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN F(m, hi) ELSE F(lo, m)
            IN F(0, 46341)
(* norm of an integer vector, components up to 10^9: scale down first *)
Norm2(x, y) == LET m == Max2(Abs(x), Abs(y)) k == 1 + m \div 30000 IN
               IF k = 1 THEN ISqrt(x * x + y * y) ELSE k * ISqrt(RDiv(x, k) * RDiv(x, k) + RDiv(y, k) * RDiv(y, k))
Norm3(x, y, z) == LET m == Max2(Max2(Abs(x), Abs(y)), Abs(z)) k == 1 + m \div 26000 IN
               IF k = 1 THEN ISqrt(x * x + y * y + z * z)
               ELSE k * ISqrt(RDiv(x, k) * RDiv(x, k) + RDiv(y, k) * RDiv(y, k) + RDiv(z, k) * RDiv(z, k))
Mul4(a, b) == RDiv(a * b, 10000)
=============================================================================
