----------------------- MODULE TransformBufferTrace -----------------------
EXTENDS TransformBuffer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Pairs == 0..5
Init == l = 1 /\ TBInit(Pairs, 0)
TNew == Is("New") /\ buf' = [p \in Pairs |-> <<>>] /\ size' = 0
TCreate == Is("create") /\ buf' = [p \in Pairs |-> <<>>] /\ size' = e.size
TInsert == /\ Is("insert")
           /\ Insert(e.pair, [t |-> e.t, x |-> e.x, y |-> e.y, z |-> e.z, a |-> e.a])
           /\ ChkEq(l, "transform accepted", Accepts(buf[e.pair], e.t), e.ok)
TGet == /\ Is("get") /\ UNCHANGED tbVars
        /\ LET s == buf[e.pair] IN
           /\ ChkEq(l, <<"lookup answered", s>>, InRange(s, e.t), e.ok)
           /\ e.ok => LET r == Interp(s, e.t) IN
                /\ ChkEq(l, "stamp", e.t, e.stamp)
                /\ ChkNear(l, "x", r.x, e.x, 2) /\ ChkNear(l, "y", r.y, e.y, 2) /\ ChkNear(l, "z", r.z, e.z, 2)
                /\ (Abs(Wrap(r.a - e.a)) <= 4 \/ ChkEq(l, "rotation", r.a, e.a))
                /\ ChkEq(l, "rotation off the common axis (1e-4)", 0, e.off)
Next == TNew \/ TCreate \/ TInsert \/ TGet
Spec == Init /\ [][Next]_<<l, tbVars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
