----------------------------- MODULE LocalNodeMC -----------------------------
(* The threads of the local planner's camera pipeline, step by step: deliveries, one transform thread per
   camera, the thread that fetches transforms and the planner's thread. The observable machine of LocalNode
   runs along with them; its guards are the safety properties, and once every camera has delivered a cloud
   that can be transformed a cycle follows. Predicate = FALSE is the protocol in which a transform thread
   waits without looking again, Atomic = FALSE the one in which the planner's thread looks before it takes
   the lock it waits with: both lose clouds. *)
EXTENDS LocalNode, Json
CONSTANTS Emit, MaxLen, NCams, NClouds, Predicate, Atomic
VARIABLES s, slot, trans, tpc, noted, wpc, wnoted, taken, given, hist
mech == <<slot, trans, tpc, noted, wpc, wnoted, taken, given>>
vars == <<s, mech, hist>>
Cams == 1..NCams
H(o) == hist' = IF Emit THEN Append(hist, o) ELSE hist
C(id) == [id |-> id, s |-> 400 * id, h |-> 60, v |-> 30]
HasTf(k, id) == Must(s, k, 400 * id)
Init == /\ s = Create(NCams, FALSE, Zero, 15000) /\ slot = [k \in Cams |-> 0] /\ trans = [k \in Cams |-> 0] /\ tpc = [k \in Cams |-> "look"]
        /\ noted = [k \in Cams |-> FALSE] /\ wpc = "check" /\ wnoted = FALSE /\ taken = [k \in Cams |-> 0] /\ given = [k \in Cams |-> 0] /\ hist = <<>>
\* transforms of a camera arrive in order, once it delivered something
TfArrives == \E k \in Cams, id \in 1..NClouds : /\ given[k] >= 1 /\ ((s.lo[k].now = <<>> /\ id = 1) \/ (s.lo[k].now # <<>> /\ Last(s.lo[k].now) = 400 * (id - 1)))
                /\ s' = AddTf(AddTf(Run(s), k, "fcu", 400 * id), k, "local_origin", 400 * id) /\ H([op |-> "tf", k |-> k, s |-> 400 * id])
                /\ UNCHANGED mech
Deliver1(k) == /\ given[k] < NClouds /\ given' = [given EXCEPT ![k] = @ + 1]
               /\ slot' = [slot EXCEPT ![k] = given[k] + 1]
               /\ noted' = [noted EXCEPT ![k] = @ \/ tpc[k] = "wait"]
               /\ s' = Arrived(Run(Arrive(Run(s), k, C(given[k] + 1))), k)
               /\ H([op |-> "cloud", k |-> k, id |-> given[k] + 1, s |-> 400 * (given[k] + 1)])
               /\ UNCHANGED <<trans, tpc, wpc, wnoted, taken>>
Step(k) == H([op |-> "t", k |-> k])
TLook(k) == /\ tpc[k] = "look" /\ Step(k)
            /\ IF slot[k] # 0 /\ HasTf(k, slot[k])
               THEN trans' = [trans EXCEPT ![k] = slot[k]] /\ slot' = [slot EXCEPT ![k] = 0] /\ tpc' = [tpc EXCEPT ![k] = "notify"]
               ELSE tpc' = [tpc EXCEPT ![k] = IF slot[k] # 0 THEN "tf" ELSE "gap"] /\ UNCHANGED <<slot, trans>>
            /\ s' = Run(s) /\ UNCHANGED <<noted, wpc, wnoted, taken, given>>
TNotify(k) == /\ tpc[k] = "notify" /\ Step(k) /\ wnoted' = (wnoted \/ wpc = "wait") /\ tpc' = [tpc EXCEPT ![k] = "gap"]
              /\ UNCHANGED <<s, slot, trans, noted, wpc, taken, given>>
TWait(k) == /\ tpc[k] = "gap" /\ Step(k) /\ tpc' = [tpc EXCEPT ![k] = IF Predicate /\ slot[k] # 0 THEN "look" ELSE "wait"]
            /\ noted' = [noted EXCEPT ![k] = FALSE] /\ UNCHANGED <<s, slot, trans, wpc, wnoted, taken, given>>
TWake(k) == /\ tpc[k] = "wait" /\ noted[k] /\ Step(k) /\ tpc' = [tpc EXCEPT ![k] = "look"] /\ noted' = [noted EXCEPT ![k] = FALSE]
            /\ UNCHANGED <<s, slot, trans, wpc, wnoted, taken, given>>
TTfWake(k) == /\ tpc[k] = "tf" /\ slot[k] # 0 /\ HasTf(k, slot[k]) /\ Step(k) /\ tpc' = [tpc EXCEPT ![k] = "look"]
              /\ UNCHANGED <<s, slot, trans, noted, wpc, wnoted, taken, given>>
All == \A k \in Cams : trans[k] # 0
WStep == H([op |-> "t", k |-> NCams + 2])
WCheck == /\ wpc = "check" /\ WStep /\ wpc' = (IF All THEN "take" ELSE IF Atomic THEN "wait" ELSE "between") /\ wnoted' = FALSE
          /\ UNCHANGED <<s, slot, trans, tpc, noted, taken, given>>
WBetween == wpc = "between" /\ WStep /\ wpc' = "wait" /\ wnoted' = FALSE /\ UNCHANGED <<s, slot, trans, tpc, noted, taken, given>>
WWake == wpc = "wait" /\ wnoted /\ WStep /\ wpc' = "check" /\ wnoted' = FALSE /\ UNCHANGED <<s, slot, trans, tpc, noted, taken, given>>
WTake == /\ wpc = "take" /\ WStep
         /\ LET k == CHOOSE k \in Cams : taken[k] = 0 /\ \A j \in 1..(k-1) : taken[j] # 0 IN
            /\ taken' = [taken EXCEPT ![k] = trans[k]] /\ trans' = [trans EXCEPT ![k] = 0] /\ wpc' = (IF k = NCams THEN "plan" ELSE "take")
         /\ s' = Run(s) /\ UNCHANGED <<slot, tpc, noted, wnoted, given>>
Plans == [k \in Cams |-> {c \in Run(s).cams[k] : c.taken.c.id = taken[k]}]
WPlan == /\ wpc = "plan" /\ WStep /\ wpc' = "check" /\ taken' = [k \in Cams |-> 0]
         /\ s' = Info(Planned(AfterPlan(Run(s), s.goal, s.prev), Plans)) /\ UNCHANGED <<slot, trans, tpc, noted, wnoted, given>>
T(k) == TLook(k) \/ TNotify(k) \/ TWait(k) \/ TWake(k) \/ TTfWake(k)
W == WCheck \/ WBetween \/ WWake \/ WTake \/ WPlan
Next == (Emit => Len(hist) < MaxLen) /\ (TfArrives \/ (\E k \in Cams : Deliver1(k) \/ T(k)) \/ W)
Spec == Init /\ [][Next]_vars /\ WF_vars(W) /\ \A k \in Cams : WF_vars(T(k))
View == <<s, mech, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE
\* a cycle has a complete set of clouds, each of them newer than in the preceding cycle
CycleIsLegal == wpc = "plan" => \A k \in Cams : taken[k] # 0 /\ Plans[k] # {}
MechanismIsPossible == \A k \in Cams : \E c \in Run(s).cams[k] : c.pend.id = slot[k] /\ c.trans.id = trans[k] /\ c.taken.c.id = taken[k]
NothingMoves == ~ENABLED W /\ \A k \in Cams : ~ENABLED T(k)
SettledOk == NothingMoves => LET r == Quiet(Run(s)) IN Possible(r) /\ Possible(Idle(r)) /\ WorkerSettled(Idle(r))
\* liveness: a transformable cloud gets transformed or overtaken, a complete set starts a cycle
Transformed == \A k \in Cams, id \in 1..NClouds : (slot[k] = id /\ HasTf(k, id)) ~> slot[k] # id
Planning == All ~> wpc = "plan"
=============================================================================
