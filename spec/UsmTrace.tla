----------------------------- MODULE UsmTrace -----------------------------
EXTENDS Usm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ state = 0 /\ runs = [s \in {0} |-> 0] /\ chosen = 0 /\ table = <<>> /\ err = 0
TNew == Is("New") /\ UNCHANGED usmVars
TMake == /\ Is("make")
         /\ table' = [k \in {Key(r[1], r[2]) : r \in {e.table[i] : i \in 1..Len(e.table)}} |->
                        LET i == CHOOSE i \in 1..Len(e.table) : Key(e.table[i][1], e.table[i][2]) = k IN e.table[i][3]]
         /\ err' = e.err /\ state' = e.start /\ runs' = [s \in 0..(e.n - 1) |-> 0] /\ chosen' = 0
         /\ ChkEq(l, "initial state", e.start, e.state)
TIter == Is("iter") /\ Iterate(e.t)
         /\ ChkEq(l, "state after iteration", state', e.state)
         /\ ChkEq(l, "actions run", runs', [s \in DOMAIN runs |-> e.runs[s + 1]])
         /\ ChkEq(l, "table consultations", chosen', e.chosen)
Next == TNew \/ TMake \/ TIter
Spec == Init /\ [][Next]_<<l, usmVars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
