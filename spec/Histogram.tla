----------------------------- MODULE Histogram -----------------------------
(***************************************************************************)
(* The polar obstacle-distance image: rows are elevation bins, columns are *)
(* azimuth bins. Only cells with a non-zero distance are represented.      *)
(***************************************************************************)
EXTENDS VPLib
CONSTANT Fine         \* the regular bin size; the coarse bin size is twice as large

VARIABLES res,        \* current bin size (degrees)
          dist        \* <<e, z>> -> distance, for the non-empty cells
hVars == <<res, dist>>

E(r) == 180 \div r
Z(r) == 360 \div r
Empty == [c \in {} |-> 0]
Cell(e, z) == <<e % E(res), z % Z(res)>>         \* reading wraps around in both directions
At(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Get(e, z) == At(dist, Cell(e, z))
Put(f, c, v) == IF v = 0 THEN [x \in DOMAIN f \ {c} |-> f[x]]
                ELSE [x \in DOMAIN f \union {c} |-> IF x = c THEN v ELSE f[x]]

HInit(r) == res = r /\ dist = Empty
Set(e, z, v) == dist' = Put(dist, <<e, z>>, v) /\ UNCHANGED res
Clear == dist' = Empty /\ UNCHANGED res
IsEmpty == \A c \in DOMAIN dist : dist[c] <= 0

Covered(c) == {<<2 * c[1] + i, 2 * c[2] + j>> : i \in {0, 1}, j \in {0, 1}}
CoarseOf(c) == <<c[1] \div 2, c[2] \div 2>>
DownMap(f) ==
  LET cs == {CoarseOf(c) : c \in DOMAIN f}
      mean(c) == RDiv(At(f, <<2*c[1], 2*c[2]>>) + At(f, <<2*c[1]+1, 2*c[2]>>)
                      + At(f, <<2*c[1], 2*c[2]+1>>) + At(f, <<2*c[1]+1, 2*c[2]+1>>), 4)
  IN [c \in {d \in cs : mean(d) # 0} |-> mean(c)]
UpMap(f) == [c \in UNION {Covered(d) : d \in DOMAIN f} |-> f[CoarseOf(c)]]

CanDown == res = Fine
CanUp == res = 2 * Fine
Down == IF CanDown THEN res' = 2 * res /\ dist' = DownMap(dist) ELSE UNCHANGED hVars
Up == IF CanUp THEN res' = res \div 2 /\ dist' = UpMap(dist) ELSE UNCHANGED hVars
=============================================================================
