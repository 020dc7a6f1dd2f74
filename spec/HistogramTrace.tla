-------------------------- MODULE HistogramTrace --------------------------
EXTENDS Histogram, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ HInit(Fine)
TNew == Is("New") /\ res' = Fine /\ dist' = Empty
TCreate == Is("create") /\ res' = e.res /\ dist' = Empty
TSet == Is("set") /\ Set(e.e, e.z, e.v)
TZero == Is("zero") /\ Clear
TDown == Is("down") /\ Down /\ ChkEq(l, "down-sampling refused", ~CanDown, e.refused)
TUp == Is("up") /\ Up /\ ChkEq(l, "up-sampling refused", ~CanUp, e.refused)
TGet == Is("get") /\ UNCHANGED hVars /\ ChkNear(l, "distance read", Get(e.e, e.z), e.v, 1)
TDump == /\ Is("dump") /\ UNCHANGED hVars
         /\ ChkEq(l, "empty", IsEmpty, e.empty)
         /\ ChkEq(l, "non-empty cells", DOMAIN dist, {<<e.cells[k][1], e.cells[k][2]>> : k \in 1..Len(e.cells)})
         /\ \A k \in 1..Len(e.cells) : ChkNear(l, <<"cell", e.cells[k][1], e.cells[k][2]>>,
                                               dist[<<e.cells[k][1], e.cells[k][2]>>], e.cells[k][3], 1)
Next == TNew \/ TCreate \/ TSet \/ TZero \/ TDown \/ TUp \/ TGet \/ TDump
Spec == Init /\ [][Next]_<<l, hVars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
