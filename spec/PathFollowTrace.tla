--------------------------- MODULE PathFollowTrace ---------------------------
EXTENDS PathFollow, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1
TNew == Is("New")
TPath == /\ Is("path")
         /\ \E r \in PathEval(e.pts, e.age, e.vel) :
              /\ ChkEq(l, "path still valid", r.ok, e.ok)
              /\ (r.ok => Chk(l, <<"setpoint on the path", "specified", r.at, "observed", e.sp>>, NearV(r.at, e.sp, 12)))
Next == TNew \/ TPath
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
