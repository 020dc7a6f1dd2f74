---------------------------- MODULE LocalNodeTrace ----------------------------
EXTENDS LocalNode, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ s = InitNode
TNew == Is("New") /\ s' = InitNode
TCreate == Is("create") /\ s' = Create(e.cams, e.accept, e.goal, e.tterm)
TAdv == Is("adv") /\ s' = [s EXCEPT !.now = e.now]
TPose == Is("pose") /\ s' = Pose(s, e.p, e.yaw)
TVel == Is("vel") /\ s' = Vel(s, e.v)
TState == Is("state") /\ s' = State(s, e.mode, e.armed)
TClick == Is("click") /\ Chk(l, <<"height of the planner's goal", e.z, "possible", Heights(s)>>, e.z \in Heights(s)) /\ s' = Click(s, e.g, e.z)
TMarker == Is("marker") /\ s' = Marker(s, e.n, e.g)
TCommand == Is("fcu") /\ s' = Command(s, e.a1, e.a2, e.p1, e.v1, e.c1, e.p2, e.c2)
TParam == Is("param") /\ s' = Param(s, e.id, e.v)
TParamEnd == Is("paramEnd") /\ s' = ParamEnd(s)
TMission == Is("mission") /\ s' = Mission(s, e.v)
TReconf == Is("reconf") /\ s' = Reconf(s, e.z, e.tterm)
(* ---- cameras *)
TCloud == Is("cloud") /\ s' = Arrive(Run(s), e.cam + 1, [id |-> e.id, s |-> e.s, h |-> e.h, v |-> e.v])
TTfSet == Is("tfset") /\ s' = [s EXCEPT !.avail[e.cam + 1] = e.s]
TCloudEnd == Is("cloudEnd") /\ s' = Arrived(Run(s), e.cam + 1)
TTf == Is("tfin") /\ Chk(l, "transform of an unknown camera", e.cam + 1 \in DOMAIN s.cams /\ e.to \in {"fcu", "local_origin"})
       /\ s' = AddTf(Run(s), e.cam + 1, e.to, e.s)
(* ---- planner cycles *)
Own(S, v) == Chk(l, <<"planner input", v, "possible", S>>, v \in S)
TPlan == /\ Is("plan") /\ Chk(l, "planner cycle within a planner cycle", s.worker = "idle")
         /\ ChkEq(l, "cameras", DOMAIN s.cams, DOMAIN e.cams) /\ ChkEq(l, "fields of view", <<Len(s.cams), Len(s.cams)>>, <<Len(e.fov), Len(e.wfov)>>)
         /\ Chk(l, "a planner cycle without cameras", s.cams # <<>>)
         /\ \E r \in {Run(s)} : \E plans \in {[k \in DOMAIN r.cams |-> CamPlans(r, k, e.cams[k], e.fov[k], e.wfov[k])]} :
            /\ \A k \in DOMAIN r.cams : Chk(l, <<"camera", k, "is not planned on with its newest cloud", e.cams[k], e.fov[k], e.wfov[k], "possible", {c.taken : c \in r.cams[k]}>>, plans[k] # {})
            /\ s' = [Planned(AfterPlan(r, e.goal, e.prev), plans) EXCEPT !.cp = e.cp]
         /\ Chk(l, <<"goal of the planner", e.goal, e.prev, "its own", s.pgoal, s.pprev, "received", s.goals, "not passed on yet", s.owed>>, GoalKept(s, e.goal, e.prev) \/ GoalTaken(s, e.goal, e.prev) # {})
         /\ Chk(l, <<"position", e.pos, e.yaw, s.posSince>>, \E k \in 1..Len(s.posSince) : s.posSince[k].p = e.pos /\ SameAngle(s.posSince[k].y, e.yaw, 2))
         /\ Own(Members(s.velSince), e.vel) /\ Own(Members(s.armSince), e.armed)
         /\ Own(Members(s.parSince), [cp |-> e.cp, cruise |-> e.cruise]) /\ Own(Members(s.misSince), e.mission)
         /\ ChkEq(l, "time", s.now, e.now)
TScan == Is("scan") /\ Chk(l, "obstacle distances outside of a planner cycle or not asked for", s.worker = "busy" /\ ScanDue(s) /\ s.scans = 0)
         /\ s' = Scan(s) /\ ChkEq(l, "stamp", s.plan, e.stamp) /\ ChkEq(l, "sectors", <<60, 600>>, <<e.n, e.inc>>)
TInfo == Is("info") /\ Chk(l, "result without a planner cycle", s.worker = "busy") /\ ChkEq(l, "result of the cycle", e.want, e.is)
         /\ ChkEq(l, "obstacle distances sent", IF ScanDue(s) THEN 1 ELSE 0, s.scans) /\ s' = Info(s)
(* ---- commands *)
TTick == Is("tick") /\ Chk(l, "a new cycle starts before the last one is over", CanTick(s)) /\ s' = Tick(s)
TPass == Is("pass") /\ Chk(l, "waits for a position that is there", CanPass(s)) /\ s' = Pass(s)
TUpdate == /\ Is("update") /\ Chk(l, <<"commands when not healthy, or without a position: no plan since", s.now - s.lastPlan, "running for", s.now, s.phase, s.got>>, CanUpdate(s))
           /\ LET o == [pos |-> e.pos, yaw |-> s.yaw, goal |-> e.goal, prev |-> e.prev, vel |-> e.vel, stay |-> e.stay, air |-> e.air, nav |-> e.nav,
                        land |-> e.land, tko |-> e.tko, des |-> e.des] IN ChkEq(l, "inputs of the waypoint generator", Inputs(s), o)
           /\ Chk(l, <<"heading", s.yaw, e.yaw>>, SameAngle(s.yaw, e.yaw, 2)) /\ ChkEq(l, "time", s.now, e.now)
           /\ s' = Update(s)
TWp == Is("wp") /\ Chk(l, "waypoint without inputs", s.phase = "update") /\ s' = [s EXCEPT !.phase = "wp", !.wp = e]
Angle(a, b) == IF IsFinite(a) /\ IsFinite(b) THEN SameAngle(a, b, 2) ELSE a = b
TSetpoint == Is("setpoint") /\ Chk(l, "setpoint without waypoint", s.phase = "wp") /\ s' = [s EXCEPT !.phase = "setpoint"]
             /\ ChkEq(l, "position setpoint", s.wp.pos, e.pos) /\ Chk(l, "heading setpoint", Angle(s.wp.yaw, e.yaw))
TTrajectory == /\ Is("trajectory") /\ Chk(l, "trajectory without waypoint", s.phase = "setpoint") /\ s' = [s EXCEPT !.phase = "sent"]
               /\ ChkEq(l, "trajectory", <<s.now, 0, s.wp.pos, s.wp.vel, <<1, 0, 0, 0, 0>> >>, <<e.stamp, e.type, e.pos, e.vel, e.valid>>)
               /\ Chk(l, "yaw", Angle(s.wp.yaw, e.yaw)) /\ ChkNear(l, "yaw rate", IF IsFinite(s.wp.rate) THEN -s.wp.rate ELSE s.wp.rate, e.rate, 2)
TDone == Is("done") /\ Chk(l, <<"cycle ends without its command: no plan since", s.now - s.lastPlan, "running for", s.now, s.phase, s.got>>, CanDone(s) \/ (s.ending /\ s.phase = "wait"))
         /\ \E h \in IF s.ending \/ s.phase = "sent" THEN {s.st} ELSE Unhealthy(s) : s' = Done(s, h)
TStatus == Is("status") /\ ChkEq(l, "companion status", s.st, e.state) /\ ChkEq(l, "component", 196, e.component) /\ s' = s
TDestroy == Is("destroy") /\ s' = [s EXCEPT !.ending = TRUE]
TDestroyed == Is("destroyed") /\ s' = [s EXCEPT !.up = FALSE] /\ Chk(l, "destroyed while a command cycle runs", s.phase = "idle")
TEnded == Is("settled") /\ s.ending /\ Chk(l, <<"the node cannot be destroyed", s.phase>>, ~s.up) /\ s' = s
TSettled == /\ Is("settled") /\ ~s.ending /\ ChkEq(l, "waits for a position", s.phase = "wait", e.waiting)
            /\ Chk(l, <<"command cycle is stuck", s.phase, s.got>>, TimerSettled(s))
            /\ Chk(l, <<"a transform is never looked up", s.seen, s.avail, s.lo, s.fc>>, Known(s))
            /\ \E r \in {Quiet(Run(s))} :
               /\ Chk(l, <<"a cloud is never transformed", s.cams, s.lo, s.fc>>, Possible(r))
               /\ \E i \in {IF s.worker = "idle" THEN Idle(r) ELSE r} :
                  /\ Chk(l, <<"clouds of all cameras are there, but no planner cycle starts or ends", s.cams>>, Possible(i) /\ WorkerSettled(i))
                  /\ s' = Settle(i)
Next == TNew \/ TCreate \/ TAdv \/ TPose \/ TVel \/ TState \/ TClick \/ TMarker \/ TCommand \/ TParam \/ TParamEnd \/ TMission \/ TReconf
        \/ TCloud \/ TCloudEnd \/ TTf \/ TTfSet \/ TPlan \/ TScan \/ TInfo \/ TTick \/ TPass \/ TUpdate \/ TWp \/ TSetpoint \/ TTrajectory \/ TDone \/ TStatus \/ TSettled \/ TDestroy \/ TDestroyed \/ TEnded
Spec == Init /\ [][Next]_<<l, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
