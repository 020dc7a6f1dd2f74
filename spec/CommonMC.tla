------------------------------ MODULE CommonMC ------------------------------
(* The specification itself: bins partition the directions, conversions are mutually consistent, fields of view
   are invariant under rotation. One state per direction of the lattice. *)
EXTENDS Common
CONSTANTS Step, Ress
VARIABLES e, z
Angles == {k * Step : k \in (-(54000 \div Step))..(54000 \div Step)}
Init == e \in Angles /\ z = -54000
Next == z < 54000 /\ z' = z + Step /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, z>>

W == WrapPolar(e, z)
WrapInRange == W[1] >= -9000 /\ W[1] <= 9000 /\ W[2] >= -18000 /\ W[2] < 18000 + 1
WrapSameRay == \A i \in 1..3 : Abs(HistToCart(e, z, 10000)[i] - HistToCart(W[1], W[2], 10000)[i]) <= 3
WrapIdempotent == WrapPolar(W[1], W[2]) = W
BinRepresentative == \A res \in Ress :
   LET b == ToBin(e, z, res) c == OfBin(b[2], b[1], res) IN
   /\ b[1] \in 0..(Bins(res)[1] - 1) /\ b[2] \in 0..(Bins(res)[2] - 1)
   /\ Abs(c[1] - W[1]) <= 50 * res + 50 /\ AngDist(c[2], W[2]) <= 50 * res + 50
   /\ ToBin(c[1], c[2], res) = b
FcuHistConsistent == \A i \in 1..3 : Abs(HistToCart(e, z, 10000)[i] - FcuToCart(e, 9000 - z, 10000)[i]) <= 3
Cams == {[y |-> y, p |-> 0, h |-> h, v |-> 4000] : y \in {0, 9000, 18000, -18000, -17000}, h \in {2000, 6000, 18000, 36000}}
FovRotation == e = 0 => \A c \in Cams, r \in {4500, 18000, 30000} :
   InYaw(c, z) = InYaw([c EXCEPT !.y = @ + r], z + r)
FovSymmetric == e = 0 => \A c \in Cams : InYaw(c, c.y + z) = InYaw(c, c.y - z)
FullCircleSeesAll == e = 0 => InYaw([y |-> 4000, p |-> 0, h |-> 36000, v |-> 1], z)
ScaleRange == e = 0 => \A c \in Cams, d \in Cams : LET fs == <<c, d>> IN
   \A k \in EdgeOf(fs, z) : ScaleOf(fs, z, k) \in 0..10000 /\ (ScaleOf(fs, z, k) > 0 => InAnyYaw(fs, z))
=============================================================================
