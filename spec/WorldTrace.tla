------------------------------ MODULE WorldTrace ------------------------------
EXTENDS World, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, paths, home, files, flaw, objects
vars == <<l, paths, home, files, flaw, objects>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Start(p, h, f, w, o) == paths = p /\ home = h /\ files = f /\ flaw = w /\ objects = o
Init == l = 1 /\ Start(<<>>, "-", {}, "unset", <<>>)
TNew == Is("New") /\ paths' = <<>> /\ home' = "-" /\ files' = {} /\ flaw' = "unset" /\ objects' = <<>>
TWhere == Is("where") /\ paths' = e.paths /\ home' = e.home /\ files' = {} /\ flaw' = "unset" /\ objects' = <<>>
TModel == Is("model") /\ files' = (IF e.file THEN files \cup {<<e.at, e.path>>} ELSE files) /\ UNCHANGED <<paths, home, flaw, objects>>
TWorld == Is("world") /\ ChkEq(l, "drawn while loading", <<>>, e.out) /\ flaw' = e.flaw /\ objects' = e.objects /\ UNCHANGED <<paths, home, files>>
(* the file of a loader that was given none does not matter *)
TChange == Is("change") /\ (IF flaw = "unset" THEN UNCHANGED <<flaw, objects>> ELSE flaw' = e.flaw /\ objects' = e.objects) /\ UNCHANGED <<paths, home, files>>
Locs == Locations(paths, home)
(* a marker that stays where it was put and can be seen *)
Seen(m) == m.act = 0 /\ m.forever /\ m.visible
TTick ==
  /\ Is("tick") /\ UNCHANGED <<paths, home, files, flaw, objects>>
  /\ IF ~Draws(flaw, objects, Locs, files) THEN ChkEq(l, "drawn though the world is not complete", <<>>, e.out)
     ELSE \E S \in {Scene(flaw, objects, Locs, files)} :
       IF S = <<>> THEN ChkEq(l, "an empty world", <<"world", -1>>, IF e.out = <<>> THEN <<>> ELSE <<e.out[1].t, e.out[1].k>>) /\ Len(e.out) = 1
       ELSE /\ ChkEq(l, "number of objects", Len(S), Len(e.out))
            /\ \A k \in 1..Len(S) : \E m \in {e.out[k]} :
                 /\ ChkEq(l, "topic", "world", m.t) /\ Chk(l, <<"object", k, "cannot be seen">>, Seen(m))
                 /\ ChkEq(l, <<"object", k>>, S[k], [id |-> m.id, k |-> m.k, f |-> m.f, mesh |-> m.mesh, p |-> m.p, q |-> m.q, s |-> m.s])
                 /\ ChkEq(l, <<"object", k, "shown with its own materials">>, S[k].k = 10, m.own)
TPose ==
  /\ Is("pose") /\ UNCHANGED <<paths, home, files, flaw, objects>>
  /\ IF flaw = "unset" \/ ~Found(Locs, files, DRONE) THEN ChkEq(l, "drawn without a model of the vehicle", <<>>, e.out)
     ELSE /\ ChkEq(l, "drawn", <<"drone">>, [k \in 1..Len(e.out) |-> e.out[k].t])
          /\ \E m \in {e.out[1]} :
               /\ Chk(l, "the vehicle cannot be seen", Seen(m) /\ m.own /\ m.k = 10 /\ m.f = "local_origin")
               /\ ChkEq(l, "vehicle", <<Resolve(Locs, files, DRONE), e.p, e.q, 0, <<1500, 1500, 1500>>>>, <<m.mesh, m.p, m.q, m.id, m.s>>)
Next == TNew \/ TWhere \/ TModel \/ TWorld \/ TChange \/ TTick \/ TPose
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
