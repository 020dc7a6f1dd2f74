------------------------------- MODULE StarTree -------------------------------
(***************************************************************************)
(* The look-ahead search of the local planner: a tree rooted at the vehicle,   *)
(* grown by expanding the cheapest open node. Positions in 1/10 mm, costs in    *)
(* tenths, angles in 1/100 degree.                                              *)
(* Node: [p, v, t, h, o, d, closed] - position, velocity, total cost, estimate   *)
(* of the cost to the goal, index of the parent (from 0), depth.                 *)
(* par: [kids, step, reach, hw, goal, root]                                      *)
(***************************************************************************)
EXTENDS Common, Num
Endless == 2000000002                                   \* the cost of a node that cannot be continued
Gap(a, b) == LET d == Sub3(a, b) IN IF \E i \in 1..3 : Abs(d[i]) > 900000 THEN 9000000 ELSE LenT(d)
(* two positions within 20 cm; w: allowance *)
Close(a, b, w) == (\A i \in 1..3 : Abs(a[i] - b[i]) <= 2000 + w) /\ LenT(Sub3(a, b)) < 10 * (2000 + w)
Estimate(p, par) == MulDiv(Gap(par.goal, p), par.hw, 10000) \div 1000
ChildAt(n, c, par) == Add3(n.p, HistToCart(c[1], c[2], par.step))
Open(T) == {i \in 1..Len(T) : ~T[i].closed}
(* open nodes that may be continued: within the reach of the sensor; w: allowance *)
Reachable(T, par, w) == {i \in Open(T) : T[i].t # Endless /\ Gap(T[i].p, par.root) < 10 * (par.reach + w)}
(* the nodes with which the search may go on *)
Next1(T, par, w) == LET sure == Reachable(T, par, -w) IN {i \in Reachable(T, par, w) : \A k \in sure : T[i].t <= T[k].t}
Deepest(T) == LET O == Open(T) IN IF O = {} THEN 1 ELSE LET D == MaxOf({T[i].d : i \in O}) IN IF D = 0 THEN 1 ELSE MinOf({i \in O : T[i].d = D})
RECURSIVE Back(_, _)
Back(T, i) == IF T[i].d = 0 THEN <<T[i].p>> ELSE <<T[i].p>> \o Back(T, T[i].o + 1)
Path(T) == Back(T, Deepest(T))
=============================================================================
