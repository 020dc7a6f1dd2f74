------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The obstacle memory of the local planner. The directions around the       *)
(* vehicle are divided into fine cells; the memory holds at most one point    *)
(* per cell. The update works on annotated points:                           *)
(*   fresh point: [c |-> cell, p |-> point]              (valid, in range)    *)
(*   remembered point: [c, p, age, near, seen]                                *)
(* near: within the maximum range, seen: inside a camera's field of view.     *)
(***************************************************************************)
EXTENDS Common, Num
Dense(fresh, min) == {c \in {f.c : f \in fresh} : Cardinality({f \in fresh : f.c = c}) >= min}
Eligible(o, maxAge) == o.near /\ o.age < maxAge /\ ~o.seen
(* what a cell may hold after the update: a set of [p, age]; the empty set means nothing *)
Allowed(fresh, old, min, maxAge, dt, c) ==
  IF c \in Dense(fresh, min) THEN {[p |-> f.p, age |-> 0] : f \in {g \in fresh : g.c = c}}
  ELSE {[p |-> o.p, age |-> o.age + dt] : o \in {q \in old : q.c = c /\ Eligible(q, maxAge)}}
Filled(fresh, old, min, maxAge) == Dense(fresh, min) \cup {o.c : o \in {q \in old : Eligible(q, maxAge)}}

(* ------------------------------------------------------------------ geometry: millimetres, 1/100 degree *)
FineRes == 2
HistDir(d) == <<CDeg(Atan2(10 * d[3], LenT(<<d[1], d[2], 0>>))), CDeg(Atan2(d[1], d[2]))>>        \* <<elevation, azimuth>>
FcuDir(d) == <<-CDeg(Atan2(10 * d[3], LenT(<<d[1], d[2], 0>>))), CDeg(Atan2(d[2], d[1]))>>
CellAt(p, pos, res) == LET h == HistDir(Sub3(p, pos)) IN ToBin(h[1], h[2], res)
SeenAt(p, pos, yaw, pitch, cams) == LET f == FcuDir(Sub3(p, pos)) w == WrapPolar(f[1] - pitch, f[2] - yaw) IN InAny(cams, w[1], w[2])
Finite3(p) == \A i \in 1..3 : p[i] # NaN
(* squared distances are compared, so only lengths below the range are computed exactly *)
Reach(p, pos) == LET d == Sub3(p, pos) IN IF \E i \in 1..3 : Abs(d[i]) > 45000 THEN 450000 ELSE LenT(d)   \* 1/10 mm
=============================================================================
