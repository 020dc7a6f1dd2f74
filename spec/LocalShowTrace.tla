---------------------------- MODULE LocalShowTrace ----------------------------
(***************************************************************************)
(* The displays of the running local planner nodelet: every planning cycle and  *)
(* every command cycle draws everything once, from the newest and the previous   *)
(* values the nodelet has. Everything else in the trace is skipped.              *)
(***************************************************************************)
EXTENDS Display, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, wp, ad, aim, due, plan, ids
vars == <<l, pos, wp, ad, aim, due, plan, ids>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
O == <<0, 0, 0>>
COMMAND == {"path_actual", "path_waypoint", "path_adapted_waypoint", "original_waypoint", "adapted_waypoint", "smoothed_waypoint", "current_setpoint", "closest_point", "deg60_point"}
PLAN == {"local_pointcloud", "pointcloud_size", "complete_tree", "tree_path", "goal_position", "histogram_image", "cost_image", "range_scan"}
NONE == [goal |-> O, due |-> {}]
Init == l = 1 /\ pos = <<O, O>> /\ wp = <<O, O>> /\ ad = <<O, O>> /\ aim = O /\ due = {} /\ plan = NONE /\ ids = {}
TNew == Is("New") /\ pos' = <<O, O>> /\ wp' = <<O, O>> /\ ad' = <<O, O>> /\ aim' = O /\ due' = {} /\ plan' = NONE /\ ids' = {}
TPose == Is("pose") /\ pos' = <<pos[2], e.p>> /\ UNCHANGED <<wp, ad, aim, due, plan, ids>>
TAim == /\ Is("aim") /\ Chk(l, <<"not drawn in the last cycle", due>>, due = {}) /\ due' = COMMAND /\ aim' = e
        /\ wp' = <<wp[2], e.smoothed>> /\ ad' = <<ad[2], e.adapted>> /\ UNCHANGED <<pos, plan, ids>>
TDone == Is("done") /\ Chk(l, <<"not drawn", due>>, due = {}) /\ UNCHANGED <<pos, wp, ad, aim, due, plan, ids>>
TPlan == Is("plan") /\ Chk(l, <<"not drawn in the last planning cycle", plan.due>>, plan.due = {}) /\ plan' = [goal |-> e.goal, due |-> PLAN] /\ UNCHANGED <<pos, wp, ad, aim, due, ids>>
STATES == <<"path", "altitude", "loiter", "direct">>
Tip(p, v) == Plus3(p, v)
NearP(a, b) == \A i \in 1..3 : IF IsFinite(a[i]) /\ IsFinite(b[i]) THEN Abs(a[i] - b[i]) <= 2 ELSE ~IsFinite(b[i])
Content ==
  CASE e.t = "path_actual" -> ChkEq(l, e.t, pos, e.pts)
    [] e.t = "path_waypoint" -> ChkEq(l, e.t, wp, e.pts)
    [] e.t = "path_adapted_waypoint" -> ChkEq(l, e.t, ad, e.pts)
    [] e.t = "original_waypoint" -> ChkEq(l, e.t, aim.goto, e.p)
    [] e.t = "adapted_waypoint" -> ChkEq(l, e.t, aim.adapted, e.p)
    [] e.t = "smoothed_waypoint" -> ChkEq(l, e.t, aim.smoothed, e.p)
    [] e.t = "current_setpoint" -> /\ ChkEq(l, "colour of the state", StateColour[STATES[aim.type + 1]], e.c)
                                   /\ Chk(l, <<"setpoint arrow", pos[2], aim.vel, e.pts>>, Len(e.pts) = 2 /\ e.pts[1] = pos[2] /\ (\A i \in 1..3 : IsFinite(aim.vel[i])) => NearP(Tip(pos[2], aim.vel), e.pts[2]))
    [] e.t = "goal_position" -> ChkEq(l, e.t, plan.goal, e.p)
    [] OTHER -> TRUE
TShown == /\ Is("shown") /\ e.t \in COMMAND \cup PLAN
          /\ Chk(l, <<"drawn out of turn", e.t>>, e.t \in due \cup plan.due)
          /\ Content
          /\ (e.t \in {SEGMENTS[i] : i \in 1..3} => Chk(l, <<"overwrites what was drawn", e.t, e.id>>, <<e.t, e.id>> \notin ids)) /\ ids' = ids \cup {<<e.t, e.id>>}
          /\ due' = due \ {e.t} /\ plan' = [plan EXCEPT !.due = @ \ {e.t}] /\ UNCHANGED <<pos, wp, ad, aim>>
TOther == /\ l <= Len(Trace) /\ e.op \notin {"New", "pose", "aim", "done", "plan"} /\ ~(e.op = "shown" /\ e.t \in COMMAND \cup PLAN)
          /\ l' = l + 1 /\ UNCHANGED <<pos, wp, ad, aim, due, plan, ids>>
Next == TNew \/ TPose \/ TAim \/ TDone \/ TPlan \/ TShown \/ TOther
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
