----------------------------- MODULE StarTreeTrace -----------------------------
EXTENDS StarTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, T, par, n, nxt, pl, tr
vars == <<l, T, par, n, nxt, pl, tr>>
(* pl: the planner's last result [ptime, plen]; tr: its configuration *)
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
NoPar == [kids |-> 0]
Fresh == T' = <<>> /\ par' = NoPar /\ n' = 0 /\ nxt' = {}
Init == l = 1 /\ T = <<>> /\ par = NoPar /\ n = 0 /\ nxt = {} /\ pl = [ptime |-> 0, plen |-> 0] /\ tr = FALSE
TNew == Is("New") /\ Fresh /\ pl' = [ptime |-> 0, plen |-> 0] /\ tr' = FALSE
TApply == (Is("apply") \/ Is("px4")) /\ UNCHANGED <<T, par, n, nxt, pl, tr>>
Obs(x, closed) == [p |-> x.p, v |-> x.v, t |-> x.t, h |-> x.h, o |-> x.o, d |-> x.d, closed |-> closed]
Tol == 40                                                \* 4 mm: float rounding and integer geometry
CostTol(a) == 4 + Abs(a) \div 400000
Ten(v) == <<10 * v[1], 10 * v[2], 10 * v[3]>>
TRoot == /\ Is("root") /\ UNCHANGED <<pl, tr>> /\ n' = 0
         /\ par' = [kids |-> e.kids, step |-> 10 * e.step, reach |-> 10 * e.reach, hw |-> e.hw, goal |-> Ten(e.goal), root |-> Ten(e.pos), expand |-> e.expand]
         /\ \E q \in {Obs(e.node, FALSE)} : \E est \in {Estimate(Ten(e.pos), par')} :
            /\ ChkEq(l, "the root is the vehicle", <<Ten(e.pos), Ten(e.vel), 0, 0>>, <<q.p, q.v, q.o, q.d>>)
            /\ ChkNear(l, "estimate at the root", est, q.h, 10 + par'.hw \div 100)
            /\ IF e.kids = 0 /\ e.expand > 0 THEN ChkEq(l, "cost without candidates", Endless, q.t) ELSE ChkEq(l, "cost of the root", q.h, q.t)
            /\ T' = <<q>>
         /\ nxt' = IF e.expand > 0 THEN {1} ELSE {}
(* the candidates in order become the new nodes, except where a node already is *)
RECURSIVE Sprouts(_, _, _, _)
Sprouts(tree, cur, c, new) ==
  IF c = <<>> THEN (IF new = <<>> THEN {tree} ELSE {})
  ELSE \* taken is the set with the one observed node if it is what the first candidate yields
    UNION {LET q == IF new = <<>> THEN <<>> ELSE new[1]
               fits == new # <<>> /\ \A i \in 1..3 : Abs(q.p[i] - p[i]) <= Tol
               blocked == \E i \in 1..Len(tree) : Close(tree[i].p, p, -Tol)
               may == \E i \in 1..Len(tree) : Close(tree[i].p, p, Tol) IN
           (IF fits /\ ~blocked /\ q.o = cur - 1 /\ q.d = tree[cur].d + 1
                 /\ (\A i \in 1..3 : Abs(q.v[i] - (q.p[i] - tree[cur].p[i])) <= 5)
                 /\ Abs(q.t - (tree[cur].t - tree[cur].h + c[1][3] + q.h)) <= CostTol(q.t) + CostTol(c[1][3])
                 /\ Abs(q.h - Estimate(q.p, par)) <= 10 + par.hw \div 100
            THEN Sprouts(Append(tree, Obs(q, FALSE)), cur, Tail(c), Tail(new)) ELSE {})
           \cup (IF may THEN Sprouts(tree, cur, Tail(c), new) ELSE {}) : p \in {ChildAt(tree[cur], c[1], par)}}
TExpand == /\ Is("expand") /\ UNCHANGED <<par, pl, tr>> /\ n' = n + 1
           /\ Chk(l, <<"the cheapest open node is continued", e.o, nxt>>, e.o + 1 \in nxt)
           /\ Chk(l, "the number of children", Len(e.new) <= par.kids /\ Len(e.cand) <= par.kids)
           /\ \E R \in {Sprouts(T, e.o + 1, e.cand, e.new)} :
              /\ Chk(l, <<"the children are the candidates", e.cand, e.new>>, R # {})
              /\ \E t \in {[(CHOOSE t \in R : TRUE) EXCEPT ![e.o + 1].closed = TRUE]} :
                   T' = t /\ nxt' = IF n' < par.expand THEN Next1(t, par, Tol) ELSE {}
TDone == /\ Is("done") /\ Fresh /\ UNCHANGED <<pl, tr>>
         /\ Chk(l, "the search goes on while it can", n = par.expand \/ Reachable(T, par, -Tol) = {})
         /\ ChkEq(l, "number of nodes", Len(T), e.n)
         /\ ChkEq(l, "expanded nodes", [i \in 1..Len(T) |-> IF T[i].closed THEN 1 ELSE 0], e.closed)
         /\ ChkEq(l, "the way back from the first deepest open node", Path(T), e.path)
TSkip == Is("skip") /\ Fresh /\ UNCHANGED <<pl, tr>>
TRun == /\ Is("run") /\ Fresh /\ tr' = TRUE
        /\ IF e.empty THEN ChkEq(l, "without obstacles the last path stays as it was", pl, [ptime |-> e.ptime, plen |-> e.plen])
           ELSE Chk(l, "the path is of now", e.ptime = e.now /\ e.plen > 0)
        /\ Chk(l, "the path handed out is the path found", e.samepath)
        /\ pl' = [ptime |-> e.ptime, plen |-> e.plen]
Next == TNew \/ TApply \/ TRoot \/ TExpand \/ TDone \/ TSkip \/ TRun
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
