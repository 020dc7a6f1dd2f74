-------------------------- MODULE TransformBuffer --------------------------
(***************************************************************************)
(* The shared transform buffer. For every ordered pair of frames it keeps  *)
(* the accepted transforms of the last `size` milliseconds, in time order. *)
(* A transform is [t, x, y, z, a]: stamp (ms), translation (mm), rotation  *)
(* (1/100 degree about an axis that is fixed per pair).                    *)
(***************************************************************************)
EXTENDS VPLib

VARIABLES buf,      \* pair -> sequence of kept transforms
          size      \* buffer length
tbVars == <<buf, size>>

TBInit(pairs, sz) == buf = [p \in pairs |-> <<>>] /\ size = sz

Newest(s) == s[Len(s)]
Accepts(s, t) == s = <<>> \/ Newest(s).t < t
Keep(s, t) == SelectSeq(s, LAMBDA k : t - k.t <= size)
Insert(p, tr) == /\ buf' = IF Accepts(buf[p], tr.t) THEN [buf EXCEPT ![p] = Keep(Append(@, tr), tr.t)] ELSE buf
                 /\ UNCHANGED size

InRange(s, t) == s # <<>> /\ s[1].t <= t /\ t <= Newest(s).t
(* the neighbours of t: the last kept transform not after t, and its successor *)
Before(s, t) == CHOOSE k \in 1..Len(s) : s[k].t <= t /\ \A j \in (k+1)..Len(s) : s[j].t > t
Lerp(a, b, num, den) == a + RDiv((b - a) * num, den)
Wrap(d) == LET m == (d + 18000) % 36000 IN m - 18000          \* into [-180, 180) degrees
Interp(s, t) ==
  LET k == Before(s, t) a == s[k] IN
  IF a.t = t THEN a
  ELSE LET b == s[k+1] n == t - a.t d == b.t - a.t IN
       [t |-> t, x |-> Lerp(a.x, b.x, n, d), y |-> Lerp(a.y, b.y, n, d), z |-> Lerp(a.z, b.z, n, d),
        a |-> Wrap(a.a + RDiv(Wrap(b.a - a.a) * n, d))]
=============================================================================
