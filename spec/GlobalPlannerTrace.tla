------------------------- MODULE GlobalPlannerTrace -------------------------
(* Conformance of the global planner library: cells and edges (C25), risks and searches (C26, C30), simplification and smoothing (C27). *)
EXTENDS GlobalPlanner, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, q, goal, pos, vel, path, blocked
vars == <<l, w, q, goal, pos, vel, path, blocked>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
NoMap == [m |-> <<>>, has |-> FALSE, rh |-> 2, occ |-> {}]
Start == /\ w = NoMap /\ q = <<>> /\ goal = [c |-> <<0, 0, 3>>, r |-> 1000] /\ pos = <<0, 0, 0>> /\ vel = <<0, 0, 0>> /\ path = <<>> /\ blocked = FALSE
Init == l = 1 /\ Start
Keep == UNCHANGED <<w, q, goal, pos, vel, path, blocked>>
TNew == Is("New") /\ w' = NoMap /\ q' = <<>> /\ goal' = [c |-> <<0, 0, 3>>, r |-> 1000] /\ pos' = <<0, 0, 0>> /\ vel' = <<0, 0, 0>> /\ path' = <<>> /\ blocked' = FALSE
Set(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* C25 *)
TPos == /\ Is("pos") /\ Keep
        /\ ChkEq(l, <<"cell of", e.p, e.s>>, CellOf(e.p, e.s), e.c) /\ ChkEq(l, "cell of the same point", e.c, e.d)
        /\ ChkEq(l, <<"centre", e.c>>, Centre(e.c, e.s), e.m) /\ ChkEq(l, "cell of the centre", e.c, e.back)
        /\ ChkEq(l, "cell on the ground", CellOf(<<e.p[1], e.p[2], 0>>, e.s), e.flat)
Tol(x) == 12 + Abs(x) \div 8000
TPair == /\ Is("pair") /\ Keep
         /\ ChkEq(l, "equal", e.a = e.b, e.eq) /\ ChkEq(l, "not equal", e.a # e.b, e.ne)
         /\ ChkEq(l, <<"less", e.a, e.b>>, Less(e.a, e.b), e.lt) /\ ChkEq(l, "greater", Less(e.b, e.a), e.gt)
         /\ ChkEq(l, "at most", ~Less(e.b, e.a), e.le) /\ ChkEq(l, "at least", ~Less(e.a, e.b), e.ge)
         /\ Chk(l, "equal cells hash alike", e.a = e.b => e.hash)
         /\ ChkEq(l, "sum", Plus(e.a, e.b), e.sum) /\ ChkEq(l, "difference", Diff(e.a, e.b), e.dif)
         /\ \E d \in {Dist2(e.a, e.b, e.s)} : ChkNear(l, <<"planar distance", e.a, e.b>>, d, e.d2, Tol(d))
         /\ \E d \in {Dist3(e.a, e.b, e.s)} : ChkNear(l, <<"distance", e.a, e.b>>, d, e.d3, Tol(d))
         /\ ChkNear(l, <<"diagonal distance", e.a, e.b>>, DiagDist2(e.a, e.b, e.s), e.g2, 3)
         /\ ChkNear(l, <<"diagonal distance and height", e.a, e.b>>, DiagDist3(e.a, e.b, e.s), e.g3, 3)
         /\ ChkNear(l, "Manhattan distance", 1250 * Manhattan(e.a, Centre(e.b, e.s), e.s), e.man, 1)
         /\ ChkNear(l, "angle", AngleOf(Diff(e.a, e.b)), e.ang, 60)
TNb == /\ Is("nb") /\ Keep
       /\ ChkEq(l, "neighbours", Around(e.a), Set(e.nb)) /\ ChkEq(l, "number of neighbours", 10, Len(e.nb))
       /\ ChkEq(l, "diagonal neighbours", DiagonalsOf(e.a), Set(e.dg)) /\ ChkEq(l, "number of diagonals", 4, Len(e.dg))
       /\ ChkEq(l, <<"cells whose risk flows", e.r>>, FlowOf(e.a, e.r), Set(e.fl)) /\ ChkEq(l, "each once", Cardinality(Set(e.fl)), Len(e.fl))
TRegion == /\ Is("region") /\ Keep
           /\ ChkEq(l, <<"cell within the goal", e.g, e.r, e.c>>, WithinPlan(e.g, e.r, e.c, e.s), e.plan)
           /\ ChkEq(l, <<"position within the goal", e.g, e.r, e.p>>, WithinPosition(e.g, e.r, e.p, e.s), e.at)
TNode == /\ Is("node") /\ Keep
         /\ ChkEq(l, "equal nodes", SameNode(e.kind, e.c, e.p, e.c2, e.p2), e.eq)
         /\ ChkEq(l, "order of nodes", NodeLess(e.c, e.p, e.c2, e.p2), e.lt)
         /\ Chk(l, "equal nodes hash alike", e.eq => e.hash)
         /\ ChkNear(l, <<"rotation", e.kind, Diff(e.c, e.p), Diff(e.c2, e.p2)>>, RotationOf(e.kind, Diff(e.c, e.p), Diff(e.c2, e.p2)), e.rot, 12)
         /\ ChkNear(l, "length", Dist3(e.c, e.p, e.s), e.len, Tol(e.len))
         /\ ChkEq(l, <<"successors", e.kind, e.c, e.p>>, Successors(e.kind, e.c, e.p, e.s, e.sr), Set(e.next))
         /\ Chk(l, "successors come from this cell", e.linked)
         /\ Chk(l, <<"swept cells", e.c, e.p>>, IF OffBorders(e.c, e.p, e.s) THEN Swept(e.c, e.p, e.s) = Set(e.swept) ELSE \A x \in Set(e.swept) : \E y \in Swept(e.c, e.p, e.s) : \A k \in Axis : Abs(x[k] - y[k]) <= 1)

-----------------------------------------------------------------------------
(* the world *)
TPar == Is("par") /\ q' = e /\ UNCHANGED <<w, goal, pos, vel, path, blocked>>
TMap == /\ Is("map") /\ UNCHANGED <<q, goal, pos, vel, path, blocked>>
        /\ \E V \in {Set(e.vox)} :
             w' = [m |-> [x \in {<<v[1], v[2], v[3]>> : v \in V} |-> (CHOOSE v \in V : v[1] = x[1] /\ v[2] = x[2] /\ v[3] = x[3])[4]],
                   has |-> TRUE, rh |-> e.rh, occ |-> w.occ]
TAlien == Is("alien") /\ Keep
TOcc == Is("occ") /\ w' = [w EXCEPT !.occ = @ \cup {e.c}] /\ UNCHANGED <<q, goal, pos, vel, path, blocked>>
TPose == Is("pose") /\ pos' = e.p /\ UNCHANGED <<w, q, goal, vel, path, blocked>>
TVel == Is("vel") /\ vel' = e.p /\ UNCHANGED <<w, q, goal, pos, path, blocked>>
(* a new goal: nothing of the old one is left *)
TGoal == /\ Is("goal") /\ goal' = [c |-> e.c, r |-> e.r] /\ blocked' = FALSE /\ UNCHANGED <<w, q, pos, vel, path>>
         /\ Chk(l, "a new goal is not blocked", ~e.blocked) /\ Chk(l, "not going back", ~e.back) /\ ChkEq(l, "cached values of the old goal", 0, e.left)

(* C30: the risk is that of the latest map *)
TRisk == /\ Is("risk") /\ Keep
         /\ \E r \in {Risk(e.c, w, q)} :
              Chk(l, <<"risk", e.c, "specified", r, "observed", e.r, "kind", KindAt(e.c, w, q.s)>>, Abs(r - e.r) <= 40 \/ (r >= Cap - 40 /\ e.r >= Cap - 40))
         /\ \E s \in {Single(e.c, w, q)} : Chk(l, <<"occupied", e.c, s, e.occ>>, Abs(s - 50000000) < 20 \/ e.occ = (s > 50000000))
         /\ ChkEq(l, <<"prior", e.c>>, Prior(e.c, q.s), e.prior)
(* early turns of a fast vehicle cost double *)
Fast == vel[1] * vel[1] + vel[2] * vel[2] + vel[3] * vel[3] > 64
Early(c) == Fast /\ LET d == Diff(c, CellOf(pos, q.s)) IN (d[1] * d[1] + d[2] * d[2] + d[3] * d[3]) * q.s * q.s < 36
CostTol(x) == 40 + Abs(x) \div 2000
TEdge == /\ Is("edge") /\ Keep
         /\ \E rk \in {<<>>} : \E r \in {IF e.v = e.c THEN 0 ELSE EdgeRisk(e.v, e.c, rk, w, q)} :
              IF e.v = e.c THEN Chk(l, "standing still is no legal move", ~e.legal)
              ELSE \E cap \in {CappedEdge(e.v, e.c, rk, w, q)} :
                   /\ Chk(l, <<"risk of the edge", e.v, e.c, "specified", r, "observed", e.r>>, cap \/ Abs(r - e.r) <= 60 + r \div 10000 \/ (r >= Cap - 60 /\ e.r >= Cap - 60))
                   /\ Chk(l, <<"legal", e.v, e.c, r, q.mr, e.legal>>, (~cap /\ Border(e.v, e.c, rk, w, q)) \/ (cap /\ r < q.mr) \/ ~OffBorders(e.v, e.c, q.s) \/ e.legal = Legal(e.v, e.c, rk, w, q))
                   /\ \E x \in {EdgeCost(e.kind, e.c, e.p, e.v, Early(e.c), rk, w, q)} : Chk(l, <<"cost of the edge", e.p, e.c, e.v, "specified", x, "observed", e.cost>>, cap \/ Abs(x - e.cost) <= CostTol(x) + MulDiv(Smoothness(e.kind, Diff(e.c, e.p), Diff(e.v, e.c), q), 1, 200))

-----------------------------------------------------------------------------
(* C26 *)
Box(lo, hi) == (lo[1]..hi[1]) \X (lo[2]..hi[2]) \X (lo[3]..hi[3])
Table(lo, hi) == [c \in Box(lo, hi) |-> Risk(c, w, q)]
Bound == 220
Sharp(S, rk) == \A u \in S : \A v \in Around(u) : ~Border(v, u, rk, w, q)
InGoal(c) == WithinPlan(goal.c, goal.r, c, q.s)
Exhaustive(S, rk) == Cardinality(S) <= Bound /\ Sharp(S, rk)
Admissible == q.sm = 0 /\ e.over = 100 /\ ~q.riskh /\ ~q.speedh /\ q.s >= 2 /\ goal.r <= 1000 * q.s /\ e.kind # "SpeedNode"
Walk(p, rk) == [c \in Set(p) |-> FALSE]
TSearch ==
  /\ Is("search") /\ Keep
  /\ Chk(l, <<"number of expansions", e.n, e.iters>>, e.n <= e.iters)
  /\ \E rk \in {Table(e.lo, e.hi)} :
       IF e.found
       THEN /\ Chk(l, <<"starts at the start", e.path>>, Len(e.path) >= 2 /\ e.path[1] = e.p /\ e.path[2] = e.c)
            /\ Chk(l, <<"legal path into the goal", e.kind, e.path, goal>>, LegalPath(e.kind, e.path, goal.c, goal.r, rk, w, q))
            /\ \E near \in {[c \in Set(e.path) |-> Early(c)]} :
               \E x \in {PathCost("Node", e.path, near, rk, w, q)} :
                 Chk(l, <<"cost of the path", x, e.cost>>, Abs(x - e.cost) <= Len(e.path) * 40 + x \div 200)
            /\ IF ~Admissible THEN TRUE
               ELSE \E S \in {Closure({e.c}, {e.c}, Bound, rk, w, q)} :
                    IF ~Exhaustive(S, rk) \/ goal.c \notin S THEN TRUE
                    ELSE \E best \in {Cheapest(e.c, S, rk, w, q)} : \E x \in {PathCost(e.kind, e.path, Walk(e.path, rk), rk, w, q)} :
                         Chk(l, <<"cheapest path", "specified", best[goal.c], "observed", x, e.path>>, x <= best[goal.c] + 30 * Len(e.path))
       ELSE /\ ChkEq(l, "no path", <<>>, e.path)
            /\ IF e.n >= e.iters THEN TRUE
               ELSE IF e.kind = "SpeedNode"
               THEN \E S \in {SpeedClosure({<<e.c, e.p>>}, {<<e.c, e.p>>}, Bound, rk, w, q)} :
                    Chk(l, "a path exists", Cardinality(S) > Bound \/ ~Sharp({u[1] : u \in S}, rk) \/ \A u \in S : ~InGoal(u[1]))
               ELSE \E S \in {Closure({e.c}, {e.c}, Bound, rk, w, q)} :
                    Chk(l, <<"a path exists", {u \in S : InGoal(u)}>>, ~Exhaustive(S, rk) \/ \A u \in S : ~InGoal(u))
(* position ahead / behind by the search time (milliseconds, a multiple of 500) *)
Ahead(sign) == [k \in Axis |-> (2 * pos[k] + sign * vel[k] * (q.st \div 500)) \div (8 * q.s)]
FirstKind == IF q.omax > 150 THEN "NodeWithoutSmooth" ELSE q.kind
Kinds == {q.kind} \cup (IF q.omax > 150 THEN {"NodeWithoutSmooth"} ELSE {})
Layer == (2 * q.alt) \div q.s
(* the last resort: up to the layer of the altitude limit, across, down *)
LastResort(p, s, t, rk) ==
  LET us == <<s[1], s[2], Layer>> ut == <<t[1], t[2], Layer>> IN
  /\ Len(p) >= 6 /\ p[1] = s /\ p[2] = s /\ p[Len(p)] = t /\ us \in Set(p) /\ ut \in Set(p)
  /\ \A i \in 2..Len(p) : /\ (p[i] = p[i - 1] \/ p[i] \in Around(p[i - 1]))
                          /\ p[i][3] <= Max2(Layer, Max2(s[3], t[3]))
                          /\ (p[i] \in {s, t, us, ut} \/ RiskOf(p[i], rk, w, q) <= q.mr + 30)
FactorOk(f) == \E n \in 0..12 : LET F[k \in 0..12] == IF k = 0 THEN q.omax * 100 ELSE RDiv(F[k - 1] - 10000, 4) + 10000 IN Abs(F[n] - f) <= 3
TPlan ==
  /\ Is("plan") /\ UNCHANGED <<w, q, goal, pos, vel>> /\ path' = e.path /\ blocked' = e.blocked
  /\ ChkEq(l, "goal unchanged", goal.c, e.g) /\ Chk(l, "configured number of iterations kept", e.kept)
  /\ \E rk \in {Table(e.lo, e.hi)} : \E here \in {CellOf(pos, q.s)} : \E s \in {Ahead(1)} : \E p \in {IF q.yaw THEN Ahead(-1) ELSE s} :
     \E full \in {q.free /\ RiskOf(goal.c, rk, w, q) > q.mr} : \E S \in {Closure({s}, {s}, Bound, rk, w, q)} :
     LET bounded == q.omax >= q.omin /\ Exhaustive(S, rk) /\ FirstKind # "SpeedNode" /\ q.iters > 10 * Cardinality(S)
         reachable == bounded /\ \E u \in S : InGoal(u)
     IN /\ ChkEq(l, <<"current cell is occupied", here>>, Occupied(here, w, q), e.here)
        /\ IF Abs(RiskOf(goal.c, rk, w, q) - q.mr) <= 40 THEN TRUE
           ELSE IF full THEN Chk(l, <<"the goal is blocked", RiskOf(goal.c, rk, w, q)>>, ~e.ok /\ e.blocked) /\ ChkEq(l, "path kept", path, e.path)
           ELSE IF e.here THEN Chk(l, "no planning from an occupied cell", ~e.ok) /\ ChkEq(l, "goal not given up", blocked, e.blocked) /\ ChkEq(l, "path kept", path, e.path)
           ELSE IF e.ok
           THEN /\ ChkEq(l, "goal not given up", blocked, e.blocked)
                /\ Chk(l, <<"path", p, s, goal, "an ordinary path exists", reachable, e.path>>,
                       \/ /\ Len(e.path) >= 2 /\ e.path[1] = p /\ e.path[2] = s
                          /\ \E k \in Kinds : LegalPath(k, e.path, goal.c, goal.r, rk, w, q)
                          /\ (bounded => reachable)
                       \/ ~reachable /\ LastResort(e.path, s, goal.c, rk))
                /\ Chk(l, <<"overestimate factor", e.over>>, FactorOk(e.over))
           ELSE Chk(l, <<"a path exists", s, goal>>, e.blocked /\ ~reachable) /\ ChkEq(l, "path kept", path, e.path)

-----------------------------------------------------------------------------
(* C27 *)
TSimplify ==
  /\ Is("simplify") /\ Keep
  /\ \E near \in {[c \in Set(e.path) |-> Early(c)]} : \E rk \in {<<>>} :
     \E R \in {IF Len(e.path) < 3 THEN {e.path}
               ELSE {IF e.stop THEN Append(o, o[Len(o)]) ELSE o : o \in Simplify(e.path, e.rounds, near, rk, w, q, e.margin)}} :
       Chk(l, <<"simplified path", e.path, "specified", R, "observed", e.res>>, e.res \in R)
TSmooth ==
  /\ Is("smooth") /\ Keep
  /\ LET n == Len(e.path) m == Len(e.res) IN
     IF n < 3 THEN ChkEq(l, "too short to smooth", [i \in 1..n |-> At(e.path[i], e.s)], e.res)
     ELSE /\ ChkEq(l, "first point", At(e.path[1], e.s), e.res[1]) /\ ChkEq(l, "last point", At(e.path[n], e.s), e.res[m])
          /\ Chk(l, <<"points per corner", n, m>>, (m - 2) % (n - 2) = 0 /\ m - 2 >= 2 * (n - 2))
          /\ LET g == (m - 2) \div (n - 2) IN
             \A j \in 1..(n - 2) : \A i \in 0..(g - 1) :
               LET x == Curve(Mid(e.path[j], e.path[j + 1], e.s), At(e.path[j + 1], e.s), Mid(e.path[j + 1], e.path[j + 2], e.s), i, g - 1)
                   y == e.res[1 + (j - 1) * g + i + 1]
               IN Chk(l, <<"curve", j, i, x, y>>, \A k \in Axis : Abs(x[k] - y[k]) <= 2)
(* details of a path: the sums over its edges, and its poses *)
TInfo ==
  /\ Is("info") /\ Keep
  /\ \E rk \in {<<>>} : \E near \in {[c \in Set(e.path) |-> Early(c)]} : \E n \in {Len(e.path)} :
     \E E \in {{i \in 3..n : TRUE}} :
     \E odd \in {\E i \in E : e.path[i] = e.path[i - 1] \/ CappedEdge(e.path[i], e.path[i - 1], rk, w, q)} :
     LET DistOf == LET F[i \in 2..n] == IF i = 2 THEN 0 ELSE F[i - 1] + EdgeDist(e.path[i - 1], e.path[i], q) IN IF n < 3 THEN 0 ELSE F[n]
         TurnOf == LET F[i \in 2..n] == IF i = 2 THEN 0 ELSE F[i - 1] + Smoothness("Node", Diff(e.path[i - 1], e.path[i - 2]), Diff(e.path[i], e.path[i - 1]), q) IN IF n < 3 THEN 0 ELSE F[n]
         RiskSum == LET F[i \in 2..n] == IF i = 2 THEN 0 ELSE F[i - 1] + MulDiv(EdgeRisk(e.path[i], e.path[i - 1], rk, w, q), q.rf, 10000) IN IF n < 3 THEN 0 ELSE F[n]
         c3(i) == <<e.pos[3 * i - 2], e.pos[3 * i - 1], e.pos[3 * i]>>
         YawAt == Yaws(e.path, 0)
         tol == 40 * n
     IN /\ ChkEq(l, "one pose per cell", 3 * n, Len(e.pos)) /\ ChkEq(l, "one risk per cell", n, Len(e.risks))
        /\ \A i \in 1..n : /\ ChkEq(l, <<"pose", i>>, Centre(e.path[i], q.s), c3(i))
                           /\ Chk(l, <<"yaw", i, YawAt[i], e.yaw[i]>>, SameAngle(YawAt[i], e.yaw[i], 8))
                           /\ \E r \in {Risk(e.path[i], w, q)} : Chk(l, <<"risk along the path", i, r, e.risks[i]>>, Abs(r - e.risks[i]) <= 40 \/ (r >= Cap - 40 /\ e.risks[i] >= Cap - 40))
        /\ Chk(l, <<"length", DistOf, e.dist>>, Abs(DistOf - e.dist) <= tol + DistOf \div 2000)
        /\ Chk(l, <<"smoothness", TurnOf, e.smooth>>, Abs(TurnOf - e.smooth) <= tol + TurnOf \div 200)
        /\ Chk(l, <<"risk of the path", RiskSum, e.risk>>, odd \/ Abs(RiskSum - e.risk) <= tol + RiskSum \div 10000)
        /\ Chk(l, <<"cost of the path", e.cost>>, odd \/ LET x == PathCost("Node", e.path, near, rk, w, q) IN Abs(x - e.cost) <= tol + x \div 200)
        /\ Chk(l, <<"blocked", e.blocked>>, odd \/ (\E i \in E : Border(e.path[i], e.path[i - 1], rk, w, q)) \/ e.blocked = (\E i \in E : EdgeRisk(e.path[i], e.path[i - 1], rk, w, q) > q.mr))
Next == TNew \/ TPos \/ TPair \/ TNb \/ TRegion \/ TNode \/ TPar \/ TMap \/ TAlien \/ TOcc \/ TPose \/ TVel \/ TGoal \/ TRisk \/ TEdge \/ TSearch \/ TPlan \/ TSimplify \/ TSmooth \/ TInfo
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
