-------------------------- MODULE SlpWaypointTrace --------------------------
EXTENDS SlpWaypoint, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ s = InitWp
TNew == Is("New") /\ s' = InitWp
TPose == Is("pose") /\ s' = OnPose(s, e.p, e.yaw)
TTraj == Is("traj") /\ s' = OnTrajectory(s, [p1 |-> e.p1, v1 |-> e.v1, ok1 |-> e.ok1, p2 |-> e.p2, yaw2 |-> e.yaw2, yr2 |-> e.yr2, ok2 |-> e.ok2, cmd |-> e.cmd])
TMode == Is("mode") /\ s' = OnMode(s, e.mode, e.armed)
TGrid == Is("grid") /\ s' = OnGrid(s, [seq |-> e.seq, n |-> e.n, cell |-> e.cell, land |-> e.land, mean |-> e.mean])
TCfg == Is("cfg") /\ s' = OnCfg(s, [slc |-> e.slc, beta |-> e.beta, thr |-> e.thr, lheight |-> e.lheight, vre |-> e.vre, spiral |-> e.spiral])
TWait == Is("wait") /\ UNCHANGED s /\ Chk(l, "no decision step without a new grid", ~s.got /\ e.pubs = 0)
(* yaw (1/10000 rad) pointing from p to g *)
YawOK(y, p, g) == IF AnyNaN(<<p[1], p[2], g[1], g[2]>>) THEN y = NaN
   ELSE LET dx == g[1] - p[1] dy == g[2] - p[2] m == Max2(Abs(dx), Abs(dy)) k == 1 + m \div 60000
            cx == CosD(RDiv(y * 17189, 30000)) sy == SinD(RDiv(y * 17189, 30000)) u == dx \div k v == dy \div k IN
        m <= 50 \/ (IsFinite(y) /\ Abs(u * sy - v * cx) <= 60 * m + 40000 /\ u * cx + v * sy > 0)
SpOK(q, sp, t) ==
  /\ Chk(l, <<"position setpoint", "specified", sp.pos, "observed", q.pos>>, NearV(sp.pos, q.pos, 4))
  /\ Chk(l, <<"velocity setpoint", "specified", sp.vel, "observed", q.vel>>, NearV(sp.vel, q.vel, 2))
  /\ IF sp.yaw = Towards THEN Chk(l, <<"yaw towards the goal", q.yaw, t.pos, sp.pos>>, YawOK(q.yaw, t.pos, sp.pos))
     ELSE ChkNear(l, "yaw setpoint", sp.yaw, q.yaw, 3)
  /\ ChkNear(l, "yaw rate setpoint", sp.yr, q.yr, 3)
  /\ ChkEq(l, "validity flags", <<Valid(sp), FALSE, FALSE, FALSE, FALSE>>, q.valid)
  /\ Chk(l, <<"message form (type, frame, acceleration, unused points, horizons)", q.form>>, q.form = <<0, 1, 1, 1, 1>>)
TTick == /\ Is("tick")
         /\ Chk(l, "a decision step needs a new grid", s.got)
         /\ \E o \in Step(s) :
              /\ ChkEq(l, "setpoints published", Len(o.pub), Len(e.sp))
              /\ (Len(o.pub) = 1 => SpOK(e.sp[1], o.pub[1], s))
              /\ Chk(l, <<"goal shown", "specified", o.s.goal, "observed", e.goal>>, NearV(o.s.goal, e.goal, 4))
              /\ LET w == Shown(o.s) IN ChkEq(l, "cells shown", Len(w), Len(e.shown))
                    /\ Chk(l, <<"landability shown", w, e.shown>>, \A i \in 1..Len(w) : w[i] = 2 \/ w[i] = e.shown[i])
              /\ s' = [o.s EXCEPT !.ysp = IF @ = Towards THEN e.sp[1].yaw ELSE @]
Next == TNew \/ TPose \/ TTraj \/ TMode \/ TGrid \/ TCfg \/ TWait \/ TTick
Spec == Init /\ [][Next]_<<l, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
