------------------------------ MODULE LocalNode ------------------------------
(***************************************************************************)
(* The local planner node between the flight controller, its cameras and   *)
(* the planning algorithms: who is told what, when, and from which data.   *)
(* The state s holds what was delivered to the node and what it already    *)
(* did with it. Times and stamps are milliseconds, lengths millimetres,    *)
(* angles 1/100 degree. Cameras are numbered from 1.                       *)
(*                                                                         *)
(* The planner's thread works in parallel to the deliveries: what it is    *)
(* given must be one of the values in force since its preceding cycle      *)
(* (kept in the *Since histories), the clouds of a camera are delivered,   *)
(* transformed and taken over by internal steps, so s.cams holds the set   *)
(* of the possible states of every camera.                                 *)
(***************************************************************************)
EXTENDS VPLib
Boot == 1  Active == 4  Critical == 5  Termination == 8
Never == -1000000000
Zero == <<0, 0, 0>>
NaN3 == <<NaN, NaN, NaN>>
NavOf(mode) == CASE mode = "AUTO.MISSION" -> 0 [] mode = "AUTO.TAKEOFF" -> 1 [] mode = "AUTO.LAND" -> 2 [] mode = "AUTO.RTL" -> 3
                 [] mode = "AUTO.RTGS" -> 4 [] mode = "OFFBOARD" -> 5 [] mode = "AUTO.LOITER" -> 6 [] OTHER -> 7
NavNone == 7
CmdLand == 21  CmdTakeoff == 22  CmdNone == 65535
Last(q) == q[Len(q)]
Members(q) == {q[k] : k \in 1..Len(q)}

None == [id |-> 0, s |-> 0, h |-> 0, v |-> 0]
NotTaken == [c |-> None, h |-> 0, v |-> 0]
EmptyCam == [arr |-> None, pend |-> None, trans |-> None, h |-> 0, v |-> 0, taken |-> NotTaken]
NoTf == [now |-> <<>>, old |-> <<>>]

InitNode == [up |-> FALSE, now |-> 0, lastPlan |-> Never, before |-> Never, tterm |-> 15000, st |-> Boot,
             pos |-> Zero, yaw |-> 0, vel |-> Zero, nav |-> NavNone, armed |-> FALSE, accept |-> FALSE,
             goal |-> Zero, prev |-> Zero, des |-> NaN3, land |-> FALSE, tko |-> FALSE, item |-> Zero,
             got |-> "no", phase |-> "idle", q |-> 0, late |-> FALSE, upd |-> <<>>, wp |-> <<>>,
             pgoal |-> Zero, pprev |-> Zero, goals |-> <<>>, owed |-> FALSE,
             posSince |-> <<>>, velSince |-> <<>>, armSince |-> <<>>, parSince |-> <<>>, misSince |-> <<>>, par |-> [cp |-> 4000, cruise |-> 3000], mis |-> NaN,
             worker |-> "idle", plan |-> 0, cp |-> NaN, scans |-> 0, parOld |-> <<>>, seen |-> {}, avail |-> <<>>, cams |-> <<>>, lo |-> <<>>, fc |-> <<>>, ending |-> FALSE]

(* what was in force since the preceding cycle *)
Fresh(s) == [s EXCEPT !.posSince = <<[p |-> s.pos, y |-> s.yaw]>>, !.velSince = <<s.vel>>, !.armSince = <<s.armed>>,
                      !.parSince = Append(s.parOld, s.par), !.misSince = <<s.mis>>]
Create(n, accept, goal, tterm) ==
   Fresh([InitNode EXCEPT !.up = TRUE, !.accept = accept, !.goal = goal, !.tterm = tterm, !.pgoal = <<0, 0, 3500>>,
          !.goals = <<[g |-> goal, p |-> Zero, new |-> TRUE]>>, !.owed = TRUE,
          !.cams = [k \in 1..n |-> {EmptyCam}], !.avail = [k \in 1..n |-> Never], !.lo = [k \in 1..n |-> NoTf], !.fc = [k \in 1..n |-> NoTf]])

(* ---------------------------------------------------------------- flight controller messages *)
Pose(s, p, y) == [s EXCEPT !.pos = p, !.yaw = y, !.got = "yes", !.late = TRUE, !.posSince = Append(@, [p |-> p, y |-> y])]
Vel(s, v) == [s EXCEPT !.vel = v, !.velSince = Append(@, v)]
State(s, mode, armed) == [s EXCEPT !.nav = NavOf(mode), !.armed = armed, !.armSince = Append(@, armed)]
NewGoal(s, g, p, new) == [s EXCEPT !.goal = g, !.prev = p, !.goals = Append(@, [g |-> g, p |-> p, new |-> new])]
\* a clicked goal only has two coordinates, it keeps the height the planner is going to at that moment
Heights(s) == {s.pgoal[3]} \cup (IF s.worker = "idle" THEN {s.goals[k].g[3] : k \in 1..Len(s.goals)} ELSE {})
Click(s, g, z) == NewGoal(s, <<g[1], g[2], z>>, s.goal, TRUE)
Marker(s, n, g) == IF s.accept /\ n > 0 THEN NewGoal(s, g, s.goal, TRUE) ELSE s
Apart(a, b) == /\ \A k \in 1..3 : IsFinite(a[k]) /\ IsFinite(b[k])
               /\ \/ \E k \in 1..3 : Abs(a[k] - b[k]) > 10
                  \/ Sum([k \in 1..3 |-> (a[k] - b[k]) * (a[k] - b[k])]) > 100
Command(s, a1, a2, p1, v1, c1, p2, c2) ==
   LET update == Apart(p2, s.item) \/ ~IsFinite(s.goal[1]) \/ ~IsFinite(s.goal[2])
       s1 == IF a1 /\ update THEN [NewGoal(s, p1, s.goal, TRUE) EXCEPT !.des = v1, !.land = (c1 = CmdLand), !.tko = (c1 = CmdTakeoff)] ELSE s
       s2 == IF a2 THEN [s1 EXCEPT !.item = p2] ELSE s1
   IN IF a2 /\ c2 = CmdNone THEN [NewGoal(s2, p2, s2.prev, FALSE) EXCEPT !.des = NaN3] ELSE s2
Param(s, id, v) == LET p == IF id = "CP_DIST" THEN [s.par EXCEPT !.cp = v] ELSE IF id = "MPC_XY_CRUISE" THEN [s.par EXCEPT !.cruise = v] ELSE s.par
                   IN [s EXCEPT !.par = p, !.parOld = <<s.par>>, !.parSince = Append(@, p)]   \* in force from now or a little later
ParamEnd(s) == [s EXCEPT !.parOld = <<>>]
Mission(s, v) == IF v > 0 THEN [s EXCEPT !.mis = v, !.misSince = Append(@, v)] ELSE s
Reconf(s, z, tterm) == [s EXCEPT !.tterm = tterm, !.pgoal = <<@[1], @[2], z>>]

(* ---------------------------------------------------------------- cameras *)
Covers(q, t) == q # <<>> /\ q[1] <= t /\ t <= Last(q)
May(s, k, t) == (Covers(s.lo[k].now, t) \/ Covers(s.lo[k].old, t)) /\ (Covers(s.fc[k].now, t) \/ Covers(s.fc[k].old, t))
Must(s, k, t) == Covers(s.lo[k].now, t) /\ Covers(s.fc[k].now, t)
AddTo(f, t) == IF f.now # <<>> /\ Last(f.now) >= t THEN f
               ELSE [now |-> SelectSeq(Append(f.now, t), LAMBDA u : t - u <= 5000), old |-> f.now]
AddTf(s, k, to, t) == IF to = "fcu" THEN [s EXCEPT !.fc[k] = AddTo(@, t)] ELSE [s EXCEPT !.lo[k] = AddTo(@, t)]
\* a cloud less than 0.3 s newer than the one still waiting for its transform is dropped
Deliver(c) == IF c.arr = None THEN {}
              ELSE {[c EXCEPT !.pend = IF c.pend # None /\ c.arr.s - c.pend.s < 300 THEN @ ELSE c.arr, !.arr = None]}
Transform(s, k, c) == IF c.pend = None \/ ~May(s, k, c.pend.s) THEN {}
              ELSE {[c EXCEPT !.trans = c.pend, !.pend = None, !.h = Max2(@, c.pend.h), !.v = Max2(@, c.pend.v)]}
Take(s, c) == IF s.worker # "idle" \/ c.trans = None \/ c.taken # NotTaken THEN {}
              ELSE {[c EXCEPT !.taken = [c |-> c.trans, h |-> c.h, v |-> c.v], !.trans = None]}
RECURSIVE Reach(_, _, _)
Reach(s, k, S) == LET N == S \cup UNION {Deliver(c) \cup Transform(s, k, c) \cup Take(s, c) : c \in S} IN IF N = S THEN S ELSE Reach(s, k, N)
Run(s) == [s EXCEPT !.cams = [k \in DOMAIN s.cams |-> Reach(s, k, s.cams[k])]]
Arrive(s, k, c) == [s EXCEPT !.seen = @ \cup {k}, !.cams[k] = {[x EXCEPT !.arr = c] : x \in @}]
Arrived(s, k) == [s EXCEPT !.cams[k] = {x \in @ : x.arr = None}]

\* the newest transforms of a camera which delivers clouds are known once nothing moves any more
Known(s) == \A k \in s.seen : s.avail[k] = Never \/ \A f \in {s.lo[k].now, s.fc[k].now} : f # <<>> /\ Last(f) >= s.avail[k]

(* ---------------------------------------------------------------- planner cycles *)
\* 2000 tan(h/2)
Half(h) == CASE h = 20 -> 353 [] h = 30 -> 536 [] h = 60 -> 1155 [] h = 90 -> 2000 [] h = 120 -> 3464
Turn(k, p) == CASE k % 4 = 1 -> p [] k % 4 = 2 -> <<-p[2], p[1], p[3]>> [] k % 4 = 3 -> <<-p[1], -p[2], p[3]>> [] OTHER -> <<p[2], -p[1], p[3]>>
\* clouds without a single valid point (h = 0) count as well
World(k, c) == IF c.h = 0 THEN {} ELSE LET b == {<<2000, Half(c.h), 0>>, <<2000, -Half(c.h), 0>>, <<2000, 0, Half(c.v)>>, <<2000, 0, -Half(c.v)>>, <<2000 + 10 * c.id, 0, 0>>}
               IN {<<t[1] + c.s, t[2] + 10000 * k, t[3] + 1000>> : t \in {Turn(k, p) : p \in b}}
SamePoints(pts, want) == /\ Len(pts) = (IF want = {} THEN 0 ELSE 5)
                         /\ \A p \in want : \E i \in 1..5 : NearV(pts[i], p, 3)
                         /\ \A i \in DOMAIN pts : \E p \in want : NearV(pts[i], p, 3)
SameAngle(a, b, tol) == LET d == (a - b + 72000) % 36000 IN d <= tol \/ d >= 36000 - tol
SameFov(k, t, f) == (t.h = 0 \/ SameAngle(f[1], 9000 * (k - 1), 3)) /\ Near(f[2], 0, 3) /\ Near(f[3], 100 * t.h, 3) /\ Near(f[4], 100 * t.v, 3)
CamPlans(s, k, pts, fov, wfov) == {c \in s.cams[k] : c.taken # NotTaken /\ SamePoints(pts, World(k, c.taken.c)) /\ SameFov(k, c.taken, fov) /\ SameFov(k, c.taken, wfov)}
\* the goal the planner may have: what it had, unless it owes a newer one, or a goal in force since its preceding cycle
GoalTaken(s, g, p) == {k \in 1..Len(s.goals) : s.goals[k].g = g /\ (s.owed \/ \E j \in 1..k : s.goals[j].new) /\ \E j \in k..Len(s.goals) : s.goals[j].p = p}
GoalKept(s, g, p) == ~s.owed /\ g = s.pgoal /\ p = s.pprev
Pending(s, k) == \E j \in (k+1)..Len(s.goals) : s.goals[j].new
AfterPlan(s, g, p) ==
   LET K == GoalTaken(s, g, p) k == CHOOSE x \in K : \A y \in K : y <= x
       pend == IF K # {} THEN Pending(s, k) ELSE Pending(s, 0)
   IN [Fresh(s) EXCEPT !.pgoal = g, !.pprev = p, !.owed = pend, !.goals = <<[Last(@) EXCEPT !.new = FALSE]>>, !.worker = "busy", !.plan = s.now, !.scans = 0]
Planned(s, plans) == [s EXCEPT !.cams = [k \in DOMAIN s.cams |-> {[c EXCEPT !.taken = NotTaken] : c \in plans[k]}]]
\* obstacle distances go to the flight controller once per cycle unless it has no use for them (not-a-number: it may)
ScanDue(s) == ~(s.cp < 0)
Scan(s) == [s EXCEPT !.scans = @ + 1]
Info(s) == [s EXCEPT !.worker = "idle", !.lastPlan = s.now]

(* ---------------------------------------------------------------- commands to the flight controller *)
CanTick(s) == s.phase = "idle"
Tick(s) == [s EXCEPT !.phase = "wait", !.q = s.now, !.late = FALSE, !.before = s.lastPlan]
CanPass(s) == s.phase = "wait" /\ (s.got # "yes" \/ s.late)
Pass(s) == [s EXCEPT !.st = IF s.now - s.q > s.tterm THEN Termination ELSE @, !.got = IF @ = "may" THEN "no" ELSE @, !.late = FALSE]
HealthAt(s, last) == LET a == s.now - last IN
   IF a > 15000 /\ s.now > 15000 THEN Termination ELSE IF a > 500 /\ s.now > 5000 THEN Critical ELSE Active
Health(s) == HealthAt(s, s.lastPlan)
CanEvaluate(s) == s.phase = "wait" /\ s.got # "no"
Inputs(s) == [pos |-> s.pos, yaw |-> s.yaw, goal |-> s.goal, prev |-> s.prev, vel |-> s.vel, stay |-> FALSE, air |-> s.armed /\ s.nav # NavNone,
              nav |-> s.nav, land |-> s.land, tko |-> s.tko, des |-> s.des]
CanUpdate(s) == CanEvaluate(s) /\ Health(s) = Active
Update(s) == [s EXCEPT !.phase = "update", !.st = Active, !.late = FALSE]
\* a plan may be ready just after the health was judged
Unhealthy(s) == {h \in {Health(s), HealthAt(s, s.before)} : h # Active}
CanDone(s) == (CanEvaluate(s) /\ Unhealthy(s) # {}) \/ s.phase = "sent"
Done(s, h) == [s EXCEPT !.st = h, !.phase = "idle", !.got = IF s.late THEN "may" ELSE "no"]

(* ---------------------------------------------------------------- once nothing moves any more *)
Quiet(s) == [s EXCEPT !.cams = [k \in DOMAIN s.cams |-> {c \in @[k] : c.arr = None /\ ~(c.pend # None /\ Must(s, k, c.pend.s))}],
                      !.got = IF s.phase = "wait" /\ @ = "may" THEN "no" ELSE @]
\* an idle planner gathers nothing before the last camera delivers
Idle(s) == [s EXCEPT !.cams = [k \in DOMAIN s.cams |-> {c \in @[k] : c.taken = NotTaken}]]
Possible(s) == \A k \in DOMAIN s.cams : s.cams[k] # {}
Missing(s) == s.cams = <<>> \/ \E k \in DOMAIN s.cams : \E c \in s.cams[k] : c.trans = None
TimerSettled(s) == s.phase = "idle" \/ (s.phase = "wait" /\ s.got # "yes")
WorkerSettled(s) == IF s.worker = "busy" THEN s.phase = "wait" ELSE Missing(s)
Settle(s) == IF s.worker = "busy" THEN s
             ELSE [Fresh(s) EXCEPT !.owed = s.owed \/ Pending(s, 0), !.goals = <<[Last(@) EXCEPT !.new = FALSE]>>]
=============================================================================
