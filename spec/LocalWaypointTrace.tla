------------------------- MODULE LocalWaypointTrace -------------------------
EXTENDS LocalWaypoint, Json, IOUtils
CONSTANTS CheckMode, CheckLimits
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ s = InitWg
TTrace == Is("New") /\ s' = InitWg
TSmooth == Is("smooth") /\ s' = [s EXCEPT !.sxy = e.xy, !.sz = e.z]
TFov == Is("fov") /\ s' = [s EXCEPT !.fovs = [k \in 1..Max2(Len(@), e.i) |-> IF k = e.i THEN [y |-> e.y, p |-> e.p, h |-> e.h, v |-> e.v] ELSE @[k]]]
TInfo == Is("info") /\ s' = [s EXCEPT !.cruise = e.cruise, !.pts = e.pts]
In == [dt |-> e.dt, pos |-> e.pos, goal |-> e.goal, vel |-> e.vel, yaw |-> e.yaw, pitch |-> e.pitch, loiter |-> e.loiter, air |-> e.air,
       nav |-> e.nav, landItem |-> e.land, takeoffItem |-> e.takeoff, desired |-> e.desired]
AimOK(o) == /\ Chk(l, <<"position to go to in", s.st, "specified", o.to, "observed", e.to>>, NearV(o.to, e.to, IF s.st = "TRY_PATH" THEN 8 + 20000 \div Max2(1, Len3(o.dir)) ELSE 6))
            /\ Chk(l, <<"velocity setpoint in", s.st, "specified", o.vel, "observed", e.lin>>, NearV(o.vel, e.lin, 1))
AdaptOK(o) == Chk(l, <<"speed adapted setpoint in", s.st, "specified", o.ad, "observed", e.ad, "from", e.pos>>, NearV(o.ad, e.ad, 30))
YawOK(o) == Chk(l, <<"heading in", s.st, "specified", o.s.ysp, "observed", e.ysp>>, Abs(WrapPi(o.s.ysp - e.ysp)) <= 60)
OutOK(f) == Chk(l, <<"setpoint sent in", s.st, "specified", f.out, "observed", e.sm>>, NearV(f.out, e.sm, 8))
SentOK == Chk(l, <<"position sent is the smoothed one", e.sm, e.wp>>, NearV(e.sm, e.wp, 1))
(* what was observed replaces what was computed, so that errors do not add up *)
Resync(f, o) == [f EXCEPT !.ysp = e.ysp, !.sm = IF f.sm = f.out THEN e.sm ELSE @, !.out = e.sm,
                          !.speed = IF o.seen /\ o.s.speed > 100 THEN Len3(Sub3(e.ad, P(In))) ELSE @]
TCyc == /\ Is("cyc")
        /\ \E path \in PathEval(s.pts, e.age, s.cruise) :
           \E o \in Cycle(s, In, path, IF CheckMode THEN <<>> ELSE e.to) :
             /\ (CheckMode => AimOK(o))
             /\ (CheckLimits => AdaptOK(o) /\ YawOK(o) /\ SentOK)
             /\ \E f \in (IF o.fixed THEN {o.s} ELSE Follow(o.s, In, e.ad, o.goal)) :
                /\ (CheckLimits => OutOK(f))
                /\ \E n \in NextMode(f, In, path.ok) :
                   /\ (CheckMode => ChkEq(l, <<"mode after", s.st>>, n.st, e.st))
                   /\ s' = [Resync(n, o) EXCEPT !.st = e.st, !.chg = (e.st # s.st)]
Next == TTrace \/ TSmooth \/ TFov \/ TInfo \/ TCyc
Spec == Init /\ [][Next]_<<l, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
