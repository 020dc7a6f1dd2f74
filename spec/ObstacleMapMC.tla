---------------------------- MODULE ObstacleMapMC ----------------------------
(* Every small set of bins and every placement of a camera pair: what the distance message must say.           *)
EXTENDS ObstacleMap
VARIABLES h, yaw, cams
vars == <<h, yaw, cams>>
Spots == {[e |-> el, z |-> az, d |-> dd] : el \in {0, 12, 13, 15, 16, 29}, az \in {0, 30, 59}, dd \in {150, 3000, 7000}}
CamSets == {<<>>, <<[y |-> 0, p |-> 0, h |-> 9000, v |-> 4600]>>, <<[y |-> 0, p |-> 0, h |-> 6000, v |-> 4600], [y |-> -18000, p |-> 0, h |-> 9000, v |-> 4600]>>,
            <<[y |-> 0, p |-> 0, h |-> 36000, v |-> 4600]>>, <<[y |-> 0, p |-> 5000, h |-> 36000, v |-> 4600]>>}
Init == h \in {{}} \cup {{a} : a \in Spots} \cup {{a, b} : a \in Spots, b \in {s \in Spots : s.z = 30}} /\ yaw \in {0, 4500, 9000, -13500} /\ cams \in CamSets
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Rep(z) == Reported(h, z, 200, 12000)
(* one value, except on the boundaries of the vertical band and of the minimum range *)
Definite == \A z \in 0..Cols - 1 : Cardinality(Rep(z)) <= 2
NeverBelowMinimum == \A z \in 0..Cols - 1 : \A x \in Rep(z) : x >= 199
OnlyRealObstacles == \A z \in 0..Cols - 1 : \A x \in Rep(z) : x = 12010 \/ \E q \in h : q.z = z /\ q.d = x
CloserNeverHidden == \A q \in h : q.e \in 13..16 /\ q.d < 6000 /\ q.d > 300 => \A x \in Rep(q.z) : x <= q.d \/ \E o \in h : o.z = q.z /\ o.d < 210
AllRound == Len(cams) = 1 /\ cams[1].h = 36000 /\ cams[1].p = 0 => \A z \in 0..Cols - 1 : ColSeen(cams, z, yaw, 0)
NoCamera == cams = <<>> => \A z \in 0..Cols - 1 : ~ColSeen(cams, z, yaw, 0)
(* as many sectors are visible as the opening covers, wherever the vehicle points *)
Width == Len(cams) = 1 /\ cams[1].h = 9000 => Cardinality({z \in 0..Cols - 1 : ColSeen(cams, z, yaw, 0)}) \in 15..18
SectorsArePermuted == {Sector(i) : i \in 0..Cols - 1} = 0..Cols - 1 /\ Sector(0) = Cols \div 2
NorthFirst == OfBin(15, Sector(0), Res)[2] = 300
=============================================================================
