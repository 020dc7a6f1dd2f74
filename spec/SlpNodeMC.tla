------------------------------ MODULE SlpNodeMC ------------------------------
(* The two threads of the landing planner node, step by step: the timer thread M, which delivers
   messages while it waits for data and then runs a cycle, and the cloud thread W. The observable
   machine of SlpNode runs along; its guards are the safety properties, and a cloud that can be
   transformed is eventually processed. Predicate = FALSE is the protocol with a plain wait on the
   condition variable, which loses clouds. *)
EXTENDS SlpNode, Json
CONSTANTS Emit, MaxLen, NClouds, NTicks, Predicate
VARIABLES s, mpc, wpc, slot, pending, notified, copy, flag, planned, nt, hist
mech == <<mpc, wpc, slot, pending, notified, copy, flag, planned, nt>>
vars == <<s, mpc, wpc, slot, pending, notified, copy, flag, planned, nt, hist>>
H(o) == hist' = IF Emit THEN Append(hist, o) ELSE hist
Stamp(id) == [id |-> id, s |-> 10 * id, ns |-> 0]
HasTf(id) == \E k \in 1..Len(s.tfs) : s.tfs[k].s = 10 * id
Init == /\ s = Create(InitNode, FALSE, 500, 15000) /\ mpc = "idle" /\ wpc = "wait" /\ slot = 0 /\ pending = FALSE /\ notified = FALSE
        /\ copy = 0 /\ flag = FALSE /\ planned = 0 /\ nt = 0 /\ hist = <<>>
\* transforms arrive in order
TfArrives == \E id \in 1..NClouds : /\ Len(s.tfs) = id - 1
                /\ s' = AddTf(s, [s |-> 10 * id, ns |-> 0]) /\ H([op |-> "tf", s |-> 10 * id])
                /\ UNCHANGED mech
MTick == mpc = "idle" /\ nt < NTicks /\ nt' = nt + 1 /\ mpc' = "test" /\ s' = Tick(s) /\ H([op |-> "tick"])
         /\ UNCHANGED <<wpc, slot, pending, notified, copy, flag, planned>>
MTest == mpc = "test" /\ mpc' = (IF flag THEN "run" ELSE "poll") /\ H([op |-> "m"])
         /\ UNCHANGED <<s, wpc, slot, pending, notified, copy, flag, planned, nt>>
MDeliver(id) == /\ mpc = "poll" /\ mpc' = "test" /\ slot' = id /\ pending' = TRUE
                /\ notified' = (notified \/ wpc = "wait")
                /\ s' = Pass(Cloud(s, Stamp(id))) /\ H([op |-> "cloud", id |-> id, s |-> 10 * id])
                /\ UNCHANGED <<wpc, copy, flag, planned, nt>>
MNothing == /\ mpc = "poll" /\ mpc' = "test" /\ s' = Pass(s) /\ H([op |-> "m"])
            /\ UNCHANGED <<wpc, slot, pending, notified, copy, flag, planned, nt>>
MRun == /\ mpc = "run" /\ mpc' = "idle" /\ flag' = FALSE
        /\ s' = Done(Status(Cycle(s, planned)))
        /\ H([op |-> "m"]) /\ UNCHANGED <<wpc, slot, pending, notified, copy, planned, nt>>
WWake == /\ wpc = "wait" /\ (IF Predicate THEN pending ELSE notified) /\ wpc' = "look" /\ notified' = FALSE
         /\ H([op |-> "w"]) /\ UNCHANGED <<s, mpc, slot, pending, copy, flag, planned, nt>>
WLook == /\ wpc = "look" /\ H([op |-> "w"])
         /\ IF (IF Predicate THEN ~pending ELSE flag) THEN wpc' = "wait" /\ UNCHANGED <<copy, pending>>
            ELSE HasTf(slot) /\ wpc' = "set" /\ copy' = slot /\ pending' = FALSE
         /\ UNCHANGED <<s, mpc, slot, notified, flag, planned, nt>>
WSet == /\ wpc = "set" /\ wpc' = "look" /\ flag' = TRUE /\ planned' = copy /\ H([op |-> "w"])
        /\ UNCHANGED <<s, mpc, slot, pending, notified, copy, nt>>
Deliver == \E id \in 1..NClouds : id > slot /\ MDeliver(id)
Next == (Emit => Len(hist) < MaxLen) /\ (TfArrives \/ MTick \/ MTest \/ Deliver \/ MNothing \/ MRun \/ WWake \/ WLook \/ WSet)
Fairness == WF_vars(MTick) /\ WF_vars(MTest) /\ WF_vars(MNothing \/ Deliver) /\ WF_vars(MRun) /\ WF_vars(WWake) /\ WF_vars(WLook) /\ WF_vars(WSet)
Spec == Init /\ [][Next]_vars /\ Fairness
View == <<s, mech, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE
\* safety: whatever is planned on is a new, transformed cloud
CycleIsLegal == mpc = "run" => CanCycle(s) /\ \E c \in Usable(s) : c.id = planned
FlagMeansPlanned == flag => planned > s.used \/ wpc = "set"
MatchesObservable == (mpc = "idle") <=> (s.phase = "idle")
NothingMoves == /\ mpc = "poll" /\ ~ENABLED WWake /\ ~ENABLED WLook /\ ~ENABLED WSet /\ ~flag
SettledOk == NothingMoves => Settled(s)
\* liveness: every transformable cloud is used or overtaken by a newer one, if there are enough cycles
Processed == \A id \in 1..NClouds : (slot = id /\ HasTf(id) /\ mpc # "idle") ~> (s.used >= id \/ slot > id \/ nt = NTicks)
=============================================================================
