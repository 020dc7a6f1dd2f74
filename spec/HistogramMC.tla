---------------------------- MODULE HistogramMC ----------------------------
EXTENDS Histogram, Json
CONSTANTS Emit, MaxLen
VARIABLE hist
Vals == {0, 64, 320}
Es == {0, 1, E(res) - 1}
Zs == {0, 1, Z(res) - 1}
H(r) == hist' = Append(hist, r)
Init == res \in {Fine, 2 * Fine} /\ dist = Empty /\ hist = <<[op |-> "create", res |-> res]>>
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E e \in Es, z \in Zs, v \in Vals : Set(e, z, v) /\ H([op |-> "set", e |-> e, z |-> z, v |-> v])
           \/ Clear /\ H([op |-> "zero"])
           \/ Down /\ H([op |-> "down"])
           \/ Up /\ H([op |-> "up"])
Spec == Init /\ [][Next]_<<hVars, hist>>
View == <<hVars, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE
TypeOK == /\ \A c \in DOMAIN dist : c[1] \in 0..(E(res)-1) /\ c[2] \in 0..(Z(res)-1) /\ dist[c] # 0
DownUndoesUp == CanUp => DownMap(UpMap(dist)) = dist
MeanBounded == CanDown => \A c \in DOMAIN DownMap(dist) :
                 /\ \E d \in Covered(c) : DownMap(dist)[c] <= At(dist, d)
                 /\ \E d \in Covered(c) : DownMap(dist)[c] >= At(dist, d)
WrapConsistent == \A e \in {-1, 0, E(res)}, z \in {-1, 0, Z(res)} :
                    /\ Get(e, z) = Get(e + E(res), z) /\ Get(e, z) = Get(e, z - Z(res))
=============================================================================
