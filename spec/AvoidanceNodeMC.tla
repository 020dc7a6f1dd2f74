------------------------- MODULE AvoidanceNodeMC --------------------------
(* Exhaustive exploration of the supervisor over boundary durations; also the generator of
   transition-covering histories for the conformance replay (hist is hidden from the state by VIEW). *)
EXTENDS AvoidanceNode, Json
CONSTANTS Emit, MaxLen

Durs == {-1, 0, 499, 500, 501, 4999, 5000, 5001, 14999, 15000, 15001, 60000}
PVals == {0, 2500, NaN}
PIds == {"MPC_XY_CRUISE", "MPC_AUTO_MODE", "MPC_TKO_SPEED", "UNRELATED"}
It(c, m, t, s) == [current |-> c, command |-> m, type |-> t, speed |-> s]
Items == {It(c, m, 1, s) : c \in BOOLEAN, m \in {178, 16}, s \in {0, 3000}}
Missions == {<<>>} \union {<<a>> : a \in Items} \union {<<a, b>> : a \in Items, b \in Items}

VARIABLES hist, since   \* since: longest time without data claimed so far (history variable)
allVars == <<nodeVars, hist, since>>

H(r) == hist' = Append(hist, r)
Init == NodeInit /\ hist = <<>> /\ since = 0
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Durs, s \in Durs, h \in BOOLEAN :
                Health(c, s, h) /\ H([op |-> "failsafe", cloud |-> c, start |-> s, hover |-> h]) /\ since' = c
           \/ \E s \in {Standby, Critical, Active} : SetStatus(s) /\ H([op |-> "setstatus", s |-> s]) /\ UNCHANGED since
           \/ Heartbeat /\ H([op |-> "hb"]) /\ UNCHANGED since
           \/ \E p \in PIds, v \in PVals : Announce(p, v, 1) /\ H([op |-> "param", id |-> p, real |-> v, int |-> 1]) /\ UNCHANGED since
           \/ \E m \in Missions : Mission(m) /\ H([op |-> "mission", items |-> m]) /\ UNCHANGED since
Spec == Init /\ [][Next]_allVars
View == <<status, hover, params["MPC_XY_CRUISE"], params["MPC_AUTO_MODE"], params["MPC_TKO_SPEED"], speed>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE

TypeOK == status \in AllStatus /\ hover \in BOOLEAN
(* an evaluation with data missing for long never leaves the vehicle reported healthy *)
NeverHealthyWithoutData ==
  [][ \A c \in Durs, s \in Durs, h \in BOOLEAN :
        (Health(c, s, h) /\ Degrade(c, s)) => status' \in {Critical, Termination} ]_allVars
TerminationOnlyWhenDue ==
  [][ (status' = Termination /\ status # Termination) =>
        since' > TimeoutTermination ]_allVars
UnpolledUntouched == [][ \A p \in AllParams : params'[p] # params[p] => p \in PIds ]_allVars
=============================================================================
