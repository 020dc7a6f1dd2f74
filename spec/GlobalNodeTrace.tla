--------------------------- MODULE GlobalNodeTrace ---------------------------
(* Conformance of the global planner node: goals (C28), setpoints (C29), freshness of maps and parameters (C30). *)
EXTENDS GlobalNode, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift
vars == <<l, w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
NoMap == [m |-> <<>>, has |-> FALSE, rh |-> 2, occ |-> {}]
Defaults == [s |-> 2, alt |-> 10, minalt |-> 1, mr |-> 20000000, sm |-> 200, rf |-> 500, flow |-> 100, pen |-> 50, up |-> 50, down |-> 10, rr |-> 500, sr |-> 5000,
             kind |-> "SpeedNode", omin |-> 103, omax |-> 200, iters |-> 2000, free |-> TRUE, yaw |-> TRUE, st |-> 500, riskh |-> TRUE, speedh |-> TRUE,
             speedup |-> TRUE, thr |-> 500, dspeed |-> 1000, mspeed |-> 3000, calt |-> 28, crad |-> 1000, rounds |-> 1, margin |-> 1010]
N0 == [goal |-> [c |-> <<0, 0, 0>>, r |-> 1000, temp |-> FALSE], way |-> <<>>, blocked |-> FALSE, planned |-> <<>>, cur |-> [p |-> <<0, 0, 0>>, y |-> 0], rest |-> <<>>]
NeverMs == -1000000              \* the clock starts 1000 s after the epoch
Start == w = NoMap /\ q = Defaults /\ n = N0 /\ pos = <<0, 0, 0>> /\ yaw = 0 /\ vel = <<0, 0, 0>> /\ speed = 10000 /\ mapAt = NeverMs /\ st = 1 /\ poses = 0 /\ shift = <<>>
Init == l = 1 /\ Start
TNew == /\ Is("New") /\ w' = NoMap /\ q' = Defaults /\ n' = N0 /\ pos' = <<0, 0, 0>> /\ yaw' = 0 /\ vel' = <<0, 0, 0>> /\ speed' = 10000 /\ mapAt' = NeverMs /\ st' = 1 /\ poses' = 0 /\ shift' = <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
H == INSTANCE AvoidanceNode WITH status <- st, hover <- st, params <- st, speed <- st

(* the node is in the specified state, and has published what it had to *)
Points(s) == [i \in DOMAIN s |-> s[i].p]
State == /\ ChkEq(l, "goal", n'.goal, e.goal) /\ ChkEq(l, "waiting goals", n'.way, e.way) /\ ChkEq(l, "goal given up", n'.blocked, e.blocked)
         /\ ChkEq(l, "planned path", n'.planned, e.planned) /\ ChkEq(l, "current point", n'.cur.p, e.cur) /\ ChkEq(l, "points to follow", Points(n'.rest), e.rest)
         /\ ChkEq(l, "cells with obstacle points", w'.occ, Set(e.occ))
         /\ Chk(l, <<"yaw of the current point", n'.cur.y, e.curyaw>>, SameAngle(n'.cur.y, e.curyaw, 8))
Ops == [i \in 1..Len(e.pubs) |-> e.pubs[i].op]
GoalPubs(A, k) == \A i \in 1..Len(A) : \E p \in {e.pubs[k + i]} :
                     ChkEq(l, <<"announced", A[i]>>, Centre(A[i][2].c, q'.s), p.p) /\ Chk(l, "frame", p.frame)
Names(A) == [i \in 1..Len(A) |-> A[i][1]]
Quiet == ChkEq(l, "nothing to publish", <<>>, e.pubs)
Only(A) == ChkEq(l, "published", Names(A), Ops) /\ GoalPubs(A, 0)

TCreate == /\ Is("create") /\ q' = [q EXCEPT !.rr = e.rr]
           /\ n' = [N0 EXCEPT !.goal.c = CellOf(e.start, 2), !.cur.p = e.start] /\ UNCHANGED <<w, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
(* C30: every parameter arrives where it is used *)
Fields == DOMAIN Defaults
TConf == /\ Is("conf") /\ q' = [f \in Fields |-> e[f]] /\ UNCHANGED <<pos, yaw, vel, speed, mapAt, st, poses, shift>>
         /\ n' = IF e.s # q.s THEN Resize(n, q.s, e.s) ELSE n
         /\ w' = IF e.s # q.s THEN [w EXCEPT !.occ = {}] ELSE w
         /\ \A f \in Fields : ChkEq(l, <<"parameter", f>>, e[f], e.has[f])
         /\ State /\ Quiet
TAdv == Is("adv") /\ UNCHANGED <<w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
(* C30: maps arrive at most every 0.2 s *)
TMap == /\ Is("map") /\ UNCHANGED <<q, n, pos, yaw, vel, speed, st, poses, shift>>
        /\ IF e.now - mapAt < 200 THEN UNCHANGED <<w, mapAt>>
           ELSE /\ mapAt' = e.now
                /\ \E V \in {Set(e.vox)} :
                   w' = [m |-> [x \in {<<v[1], v[2], v[3]>> : v \in V} |-> (CHOOSE v \in V : v[1] = x[1] /\ v[2] = x[2] /\ v[3] = x[3])[4]],
                         has |-> TRUE, rh |-> e.rh, occ |-> w.occ]
        /\ State /\ Quiet
TTf == Is("tf") /\ shift' = e.p /\ UNCHANGED <<w, q, n, pos, yaw, vel, speed, mapAt, st, poses>> /\ State /\ Quiet
TCloud == /\ Is("cloud") /\ UNCHANGED <<q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>>
          /\ w' = IF shift = <<>> THEN w ELSE [w EXCEPT !.occ = @ \cup {CellOf(Plus(p, shift), q.s) : p \in Set(e.pts)}]
          /\ State
TVel == Is("vel") /\ vel' = e.p /\ UNCHANGED <<w, q, n, pos, yaw, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
TPoint == Is("point") /\ UNCHANGED <<w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
TQueue == Is("queue") /\ n' = [n EXCEPT !.way = Append(@, e.g)] /\ UNCHANGED <<w, q, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
TRisk == /\ Is("risk") /\ UNCHANGED <<w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State /\ Quiet
         /\ \E r \in {Risk(e.c, w, q)} : Chk(l, <<"risk", e.c, "specified", r, "observed", e.r>>, Abs(r - e.r) <= 40 \/ (r >= Cap - 40 /\ e.r >= Cap - 40))

(* C28: new goals *)
Wants(g) == n' = NewGoal(n, g) /\ Only(Announced(g))
TClick == /\ Is("click") /\ UNCHANGED <<w, q, pos, yaw, vel, speed, mapAt, st, poses, shift>>
          /\ Wants([c |-> CellOf(<<e.p[1], e.p[2], q.calt>>, q.s), r |-> q.crad, temp |-> FALSE]) /\ State
TFcu == /\ Is("fcu") /\ UNCHANGED <<w, q, pos, yaw, vel, speed, mapAt, st, poses, shift>>
        /\ LET c == CellOf(e.p, q.s) IN
           IF e.v2 /\ (c[1] # n.goal.c[1] \/ c[2] # n.goal.c[2]) THEN Wants([c |-> c, r |-> 1000, temp |-> FALSE])
           ELSE UNCHANGED n /\ Quiet
        /\ State

(* C29: poses and setpoints *)
TPose == /\ Is("pose") /\ pos' = e.p /\ yaw' = e.yaw /\ poses' = poses + 1 /\ UNCHANGED <<w, q, vel, speed, mapAt, st, shift>>
         /\ \E d \in {Gap(n, e.p)} :
              IF n.rest = <<>> THEN n' = n
              ELSE IF Abs(d - speed) <= 2 + speed \div 5000 THEN n' \in {n, TakeNext(n)} /\ n'.cur.p = e.cur /\ Len(n'.rest) = Len(e.rest)
              ELSE n' = IF d < speed THEN TakeNext(n) ELSE n
         /\ State
         /\ IF poses % 10 # 0 THEN Quiet
            ELSE ChkEq(l, "published", <<"actual_path">>, Ops) /\ ChkEq(l, "length of the path flown", poses \div 10 + 1, e.pubs[1].n) /\ ChkEq(l, "end of the path flown", e.p, e.pubs[1].last)
Root == LET r == Risk(CellOf(pos, q.s), w, q) IN ISqrt(r)
TCmd == /\ Is("cmd") /\ UNCHANGED <<w, q, n, pos, yaw, vel, mapAt, poses, shift>> /\ State
        /\ \E r \in {IF q.speedup THEN Root ELSE 0} : \E v \in {SpeedOf(q, r)} :
             /\ Chk(l, <<"speed", "specified", v, "observed", e.speed, "risk", r>>,
                    \/ Abs(v - e.speed) <= 3 + (q.mspeed + q.dspeed) \div 300
                    \/ (Abs(r - 10 * q.thr) <= 1 /\ (e.speed = 10 * q.dspeed \/ Abs(SpeedOf([q EXCEPT !.thr = 2000], r) - e.speed) <= 3 + (q.mspeed + q.dspeed) \div 300)))
             /\ Chk(l, <<"speed between default and maximum", e.speed>>, q.mspeed >= q.dspeed => 10 * q.dspeed <= e.speed /\ e.speed <= 10 * q.mspeed)
        /\ speed' = e.speed
        /\ ChkEq(l, "published", <<"current_setpoint", "mavros/setpoint_position/local", "mavros/trajectory/generated">>, Ops)
        /\ \E x \in {Setpoint(n, pos, e.speed)} : \A i \in 1..3 :
             /\ Chk(l, <<"setpoint", i, "specified", x, "observed", e.pubs[i].p, "vehicle", pos, "flying to", n.cur.p>>, \A k \in Axis : Abs(x[k] - e.pubs[i].p[k]) <= 4 + e.speed \div 4000)
             /\ Chk(l, <<"yaw", n.cur.y, e.pubs[i].yaw>>, SameAngle(n.cur.y, e.pubs[i].yaw, 8))
        /\ \E p \in {e.pubs[3]} : Chk(l, "a position setpoint, nothing else", p.valid /\ p.only /\ p.novel /\ p.type = 0)
        (* health: age of the latest accepted map *)
        /\ \E c \in {e.now - mapAt} : st' = IF H!Terminate(c, e.now) THEN H!Termination ELSE IF H!Degrade(c, e.now) THEN H!Critical ELSE H!Active
        /\ ChkEq(l, "companion state", st', e.state)
TStatus == /\ Is("status") /\ UNCHANGED <<w, q, n, pos, yaw, vel, speed, mapAt, st, poses, shift>> /\ State
           /\ ChkEq(l, "companion status", <<[op |-> "mavros/companion_process/status", state |-> st, component |-> 196]>>, e.pubs)

(* C28: a planning cycle *)
Fast == vel[1] * vel[1] + vel[2] * vel[2] + vel[3] * vel[3] > 64
Early(c) == Fast /\ LET d == Diff(c, CellOf(pos, q.s)) IN (d[1] * d[1] + d[2] * d[2] + d[3] * d[3]) * q.s * q.s < 36
Ahead(sign) == [k \in Axis |-> (2 * pos[k] + sign * vel[k] * (q.st \div 500)) \div (8 * q.s)]
TPlan ==
  /\ Is("plan") /\ UNCHANGED <<w, q, pos, yaw, vel, speed, mapAt, st, poses, shift>>
  /\ \E m \in {Before(n, pos, q.s)} :
     \E A1 \in {IF Advances(n, pos, q.s) /\ n.way # <<>> THEN Announced(m.goal) ELSE <<>>} :
     \E here \in {Occupied(CellOf(pos, q.s), w, q)} : \E gr \in {Risk(m.goal.c, w, q)} :
     (* a goal is given up when it is occupied or cannot be reached, not when the vehicle cannot start *)
     LET close == q.free /\ Abs(gr - q.mr) <= 40   full == q.free /\ gr > q.mr IN
     \E o \in (IF close \/ (~full /\ ~here) THEN {[found |-> TRUE, path |-> e.planned, over |-> e.over, blocked |-> FALSE]} ELSE {})
               \cup {[found |-> FALSE, path |-> m.planned, over |-> 10000, blocked |-> b] :
                      b \in IF close THEN {m.blocked, TRUE} ELSE IF here /\ ~full THEN {m.blocked} ELSE {TRUE}} :
     \E k \in {Plan(m, o)} : \E A2 \in {IF Detour(o) THEN Announced(k.goal) ELSE <<>>} :
     \E near \in {[c \in Set(k.planned) |-> Early(c)]} :
       (* which outcome: the state afterwards tells; a path starts at the vehicle and ends in the goal *)
       /\ k.goal = e.goal /\ k.way = e.way /\ k.blocked = e.blocked /\ k.planned = e.planned
       /\ (o.found => LET s == Ahead(1) IN Len(o.path) >= 2 /\ o.path[2] = s /\ WithinPlan(m.goal.c, m.goal.r, o.path[Len(o.path)], q.s))
       /\ LET A == A1 \o A2 a == Len(A) p == e.pubs[a + 1] IN
          /\ ChkEq(l, "published", Names(A) \o <<"global_temp_path", "smooth_path", "global_temp_path", "smooth_path">>, Ops)
          /\ GoalPubs(A, 0)
          /\ ChkEq(l, "published path", [i \in DOMAIN k.planned |-> Centre(k.planned[i], q.s)], p.p)
          /\ \E y \in {Yaws(k.planned, yaw)} : \A i \in DOMAIN k.planned : Chk(l, <<"yaw", i, y[i], p.yaw[i]>>, SameAngle(y[i], p.yaw[i], 8))
          /\ \E s \in {[i \in DOMAIN e.pubs[a + 3].p |-> CellOf(e.pubs[a + 3].p[i], q.s)]} :
             /\ ChkEq(l, "points of the simplified path are centres", [i \in DOMAIN s |-> Centre(s[i], q.s)], e.pubs[a + 3].p)
             /\ \E R \in {IF Len(k.planned) < 3 THEN {k.planned}
                          ELSE {Append(x, x[Len(x)]) : x \in Simplify(k.planned, q.rounds, near, <<>>, w, q, q.margin)}} :
                Chk(l, <<"simplified path", k.planned, "specified", R, "observed", s>>, s \in R)
             /\ n' = Follow(k, s, yaw, q.s)
          /\ \A i \in {a + 2, a + 4} : \E g \in {e.pubs[i - 1].p} : \E z \in {e.pubs[i].p} :
             IF g = <<>> THEN ChkEq(l, "no smooth path", <<>>, z)
             ELSE Chk(l, <<"smooth path has the ends of the path", g, z>>, [k2 \in Axis |-> 1250 * g[1][k2]] = z[1] /\ [k2 \in Axis |-> 1250 * g[Len(g)][k2]] = z[Len(z)])
  /\ State
Next == TNew \/ TCreate \/ TConf \/ TAdv \/ TMap \/ TTf \/ TCloud \/ TVel \/ TPoint \/ TQueue \/ TRisk \/ TClick \/ TFcu \/ TPose \/ TCmd \/ TStatus \/ TPlan
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
