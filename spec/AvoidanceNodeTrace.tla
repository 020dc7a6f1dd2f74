------------------------ MODULE AvoidanceNodeTrace ------------------------
(* Is a recorded history of the real supervisor a behaviour of AvoidanceNode? *)
EXTENDS AvoidanceNode, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pause   \* pause: seconds until the next polling round
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1

Init == l = 1 /\ NodeInit /\ pause = 0
TNew == Is("New") /\ pause' = 0 /\ status' = Standby /\ hover' = FALSE /\ speed' = NaN
        /\ params' = [p \in AllParams |-> IF p \in IntParams THEN -1 ELSE NaN]
TCreate == Is("create") /\ UNCHANGED pause /\ Startup /\ ChkEq(l, "status after start-up", status', e.status)
TFailsafe == Is("failsafe") /\ UNCHANGED pause /\ Health(e.cloud, e.start, e.hover)
             /\ ChkEq(l, "hover request", hover', e.ohover)
             /\ ChkEq(l, "companion status", status', e.status)
TSet == Is("setstatus") /\ UNCHANGED pause /\ SetStatus(e.s) /\ ChkEq(l, "companion status", status', e.status)
THb == Is("hb") /\ UNCHANGED pause /\ Heartbeat /\ ChkEq(l, "heartbeats published", 1, e.n)
       /\ ChkEq(l, "component id", ComponentAvoidance, e.component)
       /\ ChkEq(l, "heartbeat state", status, e.state)
       /\ ChkEq(l, "heartbeat stamp", e.now, e.stamp)
Dump == [p \in AllParams |-> e.dump[p]]
TParam == Is("param") /\ UNCHANGED pause /\ Announce(e.id, e.real, e.int) /\ ChkEq(l, "parameters", params', Dump)
TPoll == Is("poll") /\ Poll(e.reply) /\ ChkEq(l, "parameters after poll", params', Dump)
         /\ ChkEq(l, "parameters asked", Polled, {e.asked[k] : k \in 1..Len(e.asked)})
         /\ ChkEq(l, "pause before this round", pause, e.slept) /\ pause' = PollPause(params')
TMission == Is("mission") /\ UNCHANGED pause /\ Mission(e.items) /\ ChkEq(l, "mission speed", speed', e.speed)
Next == TNew \/ TCreate \/ TFailsafe \/ TSet \/ THb \/ TParam \/ TPoll \/ TMission
Spec == Init /\ [][Next]_<<l, pause, nodeVars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
