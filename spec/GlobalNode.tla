----------------------------- MODULE GlobalNode -----------------------------
(***************************************************************************)
(* The global planner node: the goal it works on and those waiting, the path    *)
(* it follows, and the setpoints it sends. A planning cycle asks the planner     *)
(* (GlobalPlanner, here any outcome) for a path.                                  *)
(*                                                                         *)
(* node: [goal, way: goals waiting, blocked, planned: cells of the path,         *)
(*        cur: the point the vehicle flies to, rest: points after it, with yaws] *)
(* goals: [c, r (mm), temp]; points in eighths of a metre                         *)
(***************************************************************************)
EXTENDS GlobalPlanner

NewGoal(n, g) == [n EXCEPT !.goal = g, !.blocked = FALSE]
(* the goals which are announced when a new goal is set: <<topic, goal>> *)
Announced(g) == IF g.temp THEN <<<<"global_temp_goal", g>>>> ELSE <<<<"global_temp_goal", g>>, <<"global_goal", g>>>>

Arrived(n, pos, s) == WithinPosition(n.goal.c, n.goal.r, pos, s)
Advances(n, pos, s) == Arrived(n, pos, s) \/ n.blocked
(* the next goal, or stop where the vehicle is *)
Pop(n, here) ==
  IF n.way # <<>> THEN NewGoal([n EXCEPT !.way = Tail(@)], Head(n.way))
  ELSE IF n.blocked THEN NewGoal([n EXCEPT !.planned = <<here>>], [c |-> here, r |-> 1000, temp |-> FALSE])
  ELSE n
Long == 10
TooGreedy == 10500            \* overestimate factor (1/10000) above which a path is not good enough
(* outcome: [found, path, over, blocked] *)
Halfway(n, path) ==
  LET k == Len(path) IN NewGoal([n EXCEPT !.way = <<n.goal>> \o @], [c |-> path[k \div 2 + 1], r |-> 1000 * (k \div 4), temp |-> TRUE])
Detour(o) == o.found /\ o.over > TooGreedy /\ Len(o.path) > Long
Plan(n, o) == IF ~o.found THEN [n EXCEPT !.blocked = o.blocked]
              ELSE LET m == [n EXCEPT !.planned = o.path] IN IF Detour(o) THEN Halfway(m, o.path) ELSE m
Before(n, pos, s) == IF Advances(n, pos, s) THEN Pop(n, CellOf(pos, s)) ELSE n
(* follow the simplified path *)
Follow(n, path, yaw, s) ==
  IF path = <<>> THEN [n EXCEPT !.rest = <<>>]
  ELSE LET y == Yaws(path, yaw) k == Min2(2, Len(path)) IN
       [n EXCEPT !.cur = [p |-> Centre(path[k], s), y |-> y[k]],
                 !.rest = [i \in 1..(Len(path) - k) |-> [p |-> Centre(path[i + k], s), y |-> y[i + k]]]]

(* a pose: the next point of the path is taken within one step of the current one *)
Gap(n, pos) == Len3([k \in Axis |-> 1250 * (n.cur.p[k] - pos[k])])        \* 1/10 mm
TakeNext(n) == [n EXCEPT !.cur = Head(n.rest), !.rest = Tail(@)]

(* goals keep their places when the size of the cells changes *)
Resized(g, s, t) == [g EXCEPT !.c = CellOf(Centre(g.c, s), t)]
Resize(n, s, t) == [NewGoal(n, Resized(n.goal, s, t)) EXCEPT !.way = [i \in DOMAIN n.way |-> Resized(n.way[i], s, t)], !.planned = <<>>]

-----------------------------------------------------------------------------
(* speed and setpoint, 1/10 mm (per second); root: the root of the risk at the vehicle (1/10000) *)
SpeedOf(q, root) == IF ~q.speedup \/ root >= 10 * q.thr THEN 10 * q.dspeed
                    ELSE 10 * q.dspeed + MulDiv(10 * (q.mspeed - q.dspeed), 10000 - root, 10000)
Setpoint(n, pos, speed) ==
  LET d == [k \in Axis |-> n.cur.p[k] - pos[k]]
      near == d[1] * d[1] + d[2] * d[2] + d[3] * d[3] < 64                \* less than one metre away
      g == Gap(n, pos)
  IN [k \in Axis |-> IF near THEN 1250 * n.cur.p[k] ELSE 1250 * pos[k] + MulDiv(1250 * d[k], speed, g)]
=============================================================================
