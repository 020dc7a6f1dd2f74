------------------------------ MODULE StarTreeMC ------------------------------
(* every search with two or three candidate directions of arbitrary cost per expanded node *)
EXTENDS StarTree, TLC
CONSTANTS Kids, Expand, Costs, ReachOf
VARIABLES T, cost, n, cur, chosen
vars == <<T, cost, n, cur, chosen>>
Par == [kids |-> Kids, step |-> 10000, reach |-> ReachOf, hw |-> 1000, goal |-> <<60000, 20000, 0>>, root |-> <<0, 0, 0>>]
Dirs == {<<0, 9000>>, <<0, 0>>, <<0, -9000>>}            \* right, ahead, left: branches come back to visited places
Root == [p |-> Par.root, v |-> <<0, 0, 0>>, t |-> Estimate(Par.root, Par), h |-> Estimate(Par.root, Par), o |-> 0, d |-> 0, closed |-> FALSE]
Init == T = <<Root>> /\ cost = <<0>> /\ n = 0 /\ cur = 1 /\ chosen = <<>>
Cand == UNION {[1..k -> Dirs \X Costs] : k \in 1..Kids}
Fine(c) == \A i \in 1..Len(c) - 1 : c[i][2] <= c[i + 1][2] /\ \A k \in i + 1..Len(c) : c[i][1] # c[k][1]
RECURSIVE Sprout(_, _)
Sprout(st, c) ==
  IF c = <<>> THEN st ELSE
  LET par == st[1][cur] p == ChildAt(par, c[1][1], Par) h == Estimate(p, Par) IN
  IF \E i \in 1..Len(st[1]) : Close(st[1][i].p, p, 0) THEN Sprout(st, Tail(c))
  ELSE Sprout(<<Append(st[1], [p |-> p, v |-> Sub3(p, par.p), t |-> par.t - par.h + c[1][2] + h, h |-> h, o |-> cur - 1, d |-> par.d + 1, closed |-> FALSE]),
              Append(st[2], c[1][2])>>, Tail(c))
Step == /\ n < Expand /\ cur > 0 /\ n' = n + 1
        /\ \E c \in {x \in Cand : Fine(x)} : \E st \in {Sprout(<<T, cost>>, c)} :
             /\ T' = [st[1] EXCEPT ![cur].closed = TRUE] /\ cost' = st[2] /\ chosen' = Append(chosen, cur)
             /\ \E nx \in {Next1([st[1] EXCEPT ![cur].closed = TRUE], Par, 0)} : cur' = IF nx = {} THEN 0 ELSE MinOf(nx)
Spec == Init /\ [][Step]_vars
(* ---------------------------------------------------------------- properties *)
RECURSIVE Branch(_)
Branch(i) == IF T[i].d = 0 THEN 0 ELSE cost[i] + Branch(T[i].o + 1)
Rooted == T[1].p = Par.root /\ T[1].d = 0
Links == \A i \in 2..Len(T) : T[i].o + 1 < i /\ T[i].d = T[T[i].o + 1].d + 1
OneStep == \A i \in 2..Len(T) : Abs(Gap(T[i].p, T[T[i].o + 1].p) - 10 * Par.step) <= 20
Totals == \A i \in 1..Len(T) : T[i].t = Branch(i) + T[i].h
Apart == \A i \in 1..Len(T) : \A k \in 1..i - 1 : ~Close(T[i].p, T[k].p, 0)
Bounded == Len(chosen) <= Expand /\ Len(T) <= 1 + Expand * Kids
Once == \A i, k \in 1..Len(chosen) : i # k => chosen[i] # chosen[k]
OnlyClosedHaveChildren == \A i \in 2..Len(T) : T[T[i].o + 1].closed
Within == \A i \in 1..Len(chosen) : Gap(T[chosen[i]].p, Par.root) < 10 * Par.reach
PathIsBranch == \E p \in {Path(T)} : /\ p[Len(p)] = Par.root /\ \A i \in 1..Len(p) - 1 : Abs(Gap(p[i], p[i + 1]) - 10 * Par.step) <= 20
                                     /\ \A i \in Open(T) : T[i].d < Len(p)
(* the node expanded is never dearer than an open one that could have been taken *)
Cheapest == [][n' # n /\ cur > 0 => \A i \in Reachable(T, Par, 0) : T[cur].t <= T[i].t]_vars
=============================================================================
