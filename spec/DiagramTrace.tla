---------------------------- MODULE DiagramTrace ----------------------------
(* Conformance of the generator (C31): generated programs, and the committed diagrams against the running machines. *)
EXTENDS Diagram, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, table, drawn
vars == <<l, table, drawn>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
None == [err |-> "", states |-> <<>>]
Init == l = 1 /\ table = None /\ drawn = <<>>
TNew == Is("New") /\ table' = None /\ drawn' = <<>>
TTable == Is("table") /\ table' = e.table /\ UNCHANGED drawn
(* the diagram of a program *)
TDot == /\ Is("dot") /\ drawn' = e.edges /\ UNCHANGED table
        /\ Chk(l, "a graph in the dot language", e.wellformed) /\ Chk(l, "the input file is left alone", e.kept)
        /\ ChkEq(l, <<"diagram", table>>, Diagram(table), e.edges)
(* a committed diagram and the one generated from the source next to it *)
TCommitted == /\ Is("committed") /\ drawn' = e.edges /\ UNCHANGED table
              /\ Chk(l, "a graph in the dot language", e.wellformed)
              /\ ChkEq(l, <<"committed diagram", e.file>>, e.edges, e.fresh)
(* the running machine: what the diagram says *)
TStep == /\ Is("step") /\ UNCHANGED <<table, drawn>>
         /\ Chk(l, <<"the machine", e.s, e.t, "goes to", e.to>>, Says(drawn, e.s, e.t, e.to))
         /\ (table # None => ChkEq(l, <<"machine", e.s, e.t>>, Target(table, e.s, e.t), e.to))
         /\ Chk(l, <<"every state of a machine is drawn", e.s>>, table # None \/ Drawn(drawn, e.s) \/ e.may)
Next == TNew \/ TTable \/ TDot \/ TCommitted \/ TStep
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
