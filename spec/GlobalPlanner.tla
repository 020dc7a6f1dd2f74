--------------------------- MODULE GlobalPlanner ---------------------------
(***************************************************************************)
(* The map, the risk of cells and edges, the cost of paths, legal paths and   *)
(* cheapest paths of the global planner; path simplification and smoothing.   *)
(*                                                                         *)
(* risk: 1/10^8, capped at Cap; costs and lengths: 1/10000 (m);               *)
(* w, the world: [m: voxel -> kind, has: BOOLEAN, rh: voxel size in half      *)
(* metres, occ: set of cells with obstacle points]                           *)
(* q, the parameters: s (cell size, half metres), alt (max altitude, m),      *)
(* mr (max cell risk), sm (smooth factor, 1/10), rf, flow (1/100), pen (1/10^4),*)
(* up, down (1/10), rr (robot radius, mm), sr (speed node radius, mm)         *)
(***************************************************************************)
EXTENDS Cells

Cap == 120000000
(* log odds of the voxel kinds 1..5 : -2.0, -0.4, 0.0, 0.85, 3.5, as probabilities in 10^-8 *)
Prob == <<11920292, 40131234, 50000000, 70056715, 97068777>>
Seen(k) == k >= 4                        \* positive log odds: an obstacle
AltPrior == <<10000, 2000, 1333, 1000, 833, 500, 330, 250, 166, 125, 10>>     \* 10^-4, by rounded altitude; the last from 10 m on
PriorAt(h) == AltPrior[Min2(Max2(h, 0), 10) + 1]
RoundUpHalf(n, d) == (2 * n + d) \div (2 * d)         \* n / d rounded, halves upwards (n >= 0)
Prior(c, s) == LET n == s * (2 * c[3] + 1) IN IF n < 0 THEN 10000 ELSE PriorAt(RoundUpHalf(n, 4))

(* n / d in 10^-8, for n <= d <= 2 * 10^8 *)
RECURSIVE Digits(_, _, _, _)
Digits(n, d, k, acc) == IF k = 0 THEN acc ELSE Digits((n * 10) % d, d, k - 1, acc * 10 + (n * 10) \div d)
Posterior(p, k) == LET a == MulDiv(Prob[k], p, 10000) b == MulDiv(100000000 - Prob[k], 10000 - p, 10000) IN Digits(a, a + b + 10000, 8, 0)
PostTab == [h \in 0..10 |-> [k \in 1..5 |-> Posterior(AltPrior[h + 1], k)]]
Post(c, s, k) == LET n == s * (2 * c[3] + 1) IN PostTab[IF n < 0 THEN 0 ELSE Min2(RoundUpHalf(n, 4), 10)][k]

(* the kind of the map at a cell: 0 is unknown; cells of 2 m are looked up in blocks of two voxels per side *)
KindAt(c, w, s) ==
  LET v == [k \in Axis |-> (s * (2 * c[k] + 1)) \div (2 * w.rh)] IN
  IF s < 4 THEN (IF v \in DOMAIN w.m THEN w.m[v] ELSE 0)
  ELSE LET b == [k \in Axis |-> 2 * (v[k] \div 2)]
           S == {w.m[x] : x \in {y \in {Plus(b, o) : o \in {0, 1} \X {0, 1} \X {0, 1}} : y \in DOMAIN w.m}}
       IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Single(c, w, q) ==
  IF c[3] < 1 \/ ~w.has THEN 100000000
  ELSE LET k == KindAt(c, w, q.s) IN
       IF k = 0 THEN q.pen * Prior(c, q.s)
       ELSE IF c \in w.occ \/ Seen(k) THEN Post(c, q.s, k) ELSE RDiv(MulDiv(Post(c, q.s, k), q.pen, 100), 100)
Occupied(c, w, q) == Single(c, w, q) > 50000000
RingRadius(w, q) == LET d == 500 * w.rh IN (q.rr + d - 1) \div d
Spread(x, flow) == IF flow = 100 THEN x ELSE RDiv(x * (flow \div 5), 20)          \* flow in steps of 5 %
RECURSIVE Capped(_, _)
Capped(S, acc) == IF S = {} \/ acc >= 1000000000 THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Capped(S \ {x}, acc + x[2])
Risk(c, w, q) ==
  LET near == IF q.flow = 0 THEN 0 ELSE Capped({<<v, Spread(Single(v, w, q), q.flow)>> : v \in FlowOf(c, RingRadius(w, q))}, 0)
  IN Min2(Cap, Single(c, w, q) + near)

(* rk: table of risks, tab its domain; cells outside are computed *)
RiskOf(c, rk, w, q) == IF c \in DOMAIN rk THEN rk[c] ELSE Risk(c, w, q)
RECURSIVE SumRisk(_, _, _, _)
SumRisk(S, rk, w, q) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN RiskOf(c, rk, w, q) + SumRisk(S \ {c}, rk, w, q)
(* of the edge to c from p # c *)
EdgeRisk(c, p, rk, w, q) == LET S == Swept(c, p, q.s) IN MulDiv(RDiv(SumRisk(S, rk, w, q), Cardinality(S)), Dist3(c, p, q.s), 10000)
CappedEdge(c, p, rk, w, q) == ~OffBorders(c, p, q.s) \/ \E x \in Swept(c, p, q.s) : RiskOf(x, rk, w, q) = Cap
BelowTop(c, q) == q.s * (2 * c[3] + 1) < 4 * q.alt
Legal(c, p, rk, w, q) == c # p /\ BelowTop(c, q) /\ EdgeRisk(c, p, rk, w, q) < q.mr
(* too close to the limit to call *)
Border(c, p, rk, w, q) == c # p /\ (~OffBorders(c, p, q.s) \/ Abs(EdgeRisk(c, p, rk, w, q) - q.mr) <= 60 + q.mr \div 10000)

-----------------------------------------------------------------------------
(* costs *)
EdgeDist(u, v, q) == LET dz == 5000 * q.s * (v[3] - u[3]) IN
                     Dist2(u, v, q.s) + MulDiv(Max2(dz, 0), q.up, 10) + MulDiv(Max2(-dz, 0), q.down, 10)
Smoothness(kind, d, e, q) == LET t == RotationOf(kind, d, e) IN MulDiv(MulDiv(t, t, 10000), q.sm, 10)
(* early: the vehicle is fast and the turn is near *)
EdgeCost(kind, c, p, v, early, rk, w, q) ==
  EdgeDist(c, v, q) + MulDiv(EdgeRisk(v, c, rk, w, q), q.rf, 10000)
  + (IF early THEN 2 ELSE 1) * Smoothness(kind, Diff(c, p), Diff(v, c), q)

-----------------------------------------------------------------------------
(* legal paths: <<parent, start, ...>> *)
LegalPath(kind, path, goal, r, rk, w, q) ==
  /\ Len(path) >= 2
  /\ WithinPlan(goal, r, path[Len(path)], q.s)
  /\ \A i \in 3..Len(path) :
       /\ path[i] \in Successors(kind, path[i - 1], IF kind = "SpeedNode" THEN path[i - 2] ELSE path[i - 1], q.s, q.sr)
       /\ path[i] # path[i - 1] /\ BelowTop(path[i], q)
       /\ (Legal(path[i], path[i - 1], rk, w, q) \/ Border(path[i], path[i - 1], rk, w, q))

(* cells reachable from a start over legal edges between neighbours (at most n) *)
RECURSIVE Closure(_, _, _, _, _, _)
Closure(front, seen, n, rk, w, q) ==
  IF front = {} \/ Cardinality(seen) > n THEN seen
  ELSE LET new == UNION {{v \in Around(u) : v \notin seen /\ Legal(v, u, rk, w, q)} : u \in front}
       IN Closure(new, seen \cup new, n, rk, w, q)
(* (cell, parent) pairs reachable by speed nodes (at most n) *)
RECURSIVE SpeedClosure(_, _, _, _, _, _)
SpeedClosure(front, seen, n, rk, w, q) ==
  IF front = {} \/ Cardinality(seen) > n THEN seen
  ELSE LET new == UNION {{<<v, u[1]>> : v \in {x \in Successors("SpeedNode", u[1], u[2], q.s, q.sr) : Legal(x, u[1], rk, w, q)}} : u \in front} \ seen
       IN SpeedClosure(new, seen \cup new, n, rk, w, q)

(* cheapest way to every cell of a closed set S over legal edges, without turning cost *)
Infinite == 1000000000
RECURSIVE Relax(_, _, _)
Relax(dist, into, n) ==
  IF n = 0 THEN dist
  ELSE LET new == [v \in DOMAIN dist |-> LET X == {dist[e[1]] + e[2] : e \in into[v]} \cup {dist[v]} IN CHOOSE x \in X : \A y \in X : x <= y]
       IN IF new = dist THEN dist ELSE Relax(new, into, n - 1)
Cheapest(start, S, rk, w, q) ==
  LET into == [v \in S |-> {<<u, EdgeDist(u, v, q) + MulDiv(EdgeRisk(v, u, rk, w, q), q.rf, 10000)>> :
                            u \in {x \in Around(v) : x \in S /\ Legal(v, x, rk, w, q)}}]
  IN Relax([v \in S |-> IF v = start THEN 0 ELSE Infinite], into, Cardinality(S))

PathCost(kind, path, near, rk, w, q) ==
  LET F[i \in 2..Len(path)] == IF i = 2 THEN 0 ELSE F[i - 1] + EdgeCost(kind, path[i - 1], path[i - 2], path[i], near[path[i - 1]], rk, w, q)
  IN IF Len(path) < 3 THEN 0 ELSE F[Len(path)]

(* yaw along a path (1/10000 rad): that of the next edge; vertical edges and the end keep the last one (at first y0) *)
Yaws(path, y0) == LET n == Len(path)
                  F[i \in 0..n] == IF i = 0 THEN y0 ELSE IF i = n \/ Level(Diff(path[i + 1], path[i])) THEN F[i - 1] ELSE RDiv(AngleOf(Diff(path[i + 1], path[i])), 10)
              IN [i \in 1..n |-> F[i]]
SameAngle(a, b, tol) == Abs(a - b) <= tol \/ Abs(Abs(a - b) - 62832) <= tol

-----------------------------------------------------------------------------
(* simplification: rounds over consecutive triples; the middle point of a triple goes when the shortcut costs at most
   margin (1/1000) times the two edges. Possible results: a set, since costs may be too close to call. *)
Shortcut(a, b, c, d, near, rk, w, q, margin) ==    \* may b -> c -> d become b -> d (a: before b)? <<may go, may stay>>
  LET cur == EdgeCost("Node", b, a, c, near[b], rk, w, q) + EdgeCost("Node", c, b, d, near[c], rk, w, q)
      new == EdgeCost("Node", b, a, d, near[b], rk, w, q)
      lim == MulDiv(cur, margin, 1000)
      tol == 60 + (cur + new) \div 2000
      degenerate == b = c \/ c = d \/ b = d
      capped == ~degenerate /\ (CappedEdge(c, b, rk, w, q) \/ CappedEdge(d, c, rk, w, q) \/ CappedEdge(d, b, rk, w, q))
  IN IF degenerate THEN <<TRUE, FALSE>>            \* a zero edge has no cost
     ELSE IF capped THEN <<TRUE, TRUE>>
     ELSE <<new <= lim + tol, new > lim - tol>>
RECURSIVE Round(_, _, _, _, _, _, _, _)
Round(path, i, out, near, rk, w, q, margin) ==     \* i: index of the last point of the triple; out: set of prefixes
  IF i > Len(path) THEN (IF i = Len(path) + 1 THEN {Append(o, path[Len(path)]) : o \in out} ELSE out)
  ELSE LET m == Shortcut(path[i - 3], path[i - 2], path[i - 1], path[i], near, rk, w, q, margin)
           next == (IF m[1] THEN {Append(o, path[i]) : o \in out} ELSE {})
                   \cup (IF m[2] THEN {o \o <<path[i - 1], path[i]>> : o \in out} ELSE {})
       IN Round(path, i + 2, next, near, rk, w, q, margin)
RECURSIVE Simplify(_, _, _, _, _, _, _)
Simplify(path, rounds, near, rk, w, q, margin) ==
  IF rounds = 0 \/ Len(path) < 3 THEN {path}
  ELSE UNION {IF Len(o) = Len(path) THEN {path} ELSE Simplify(o, rounds - 1, near, rk, w, q, margin) :
              o \in Round(path, 4, {<<path[1], path[2]>>}, near, rk, w, q, margin)}
(* smoothed: the ends, and every corner replaced by the curve between the middles of its edges *)
Mid(a, b, s) == [k \in Axis |-> 2500 * s * (a[k] + b[k] + 1)]               \* middle of two centres, 1/10 mm
At(a, s) == [k \in Axis |-> 2500 * s * (2 * a[k] + 1)]
Curve(p0, p1, p2, i, n) == [k \in Axis |-> RDiv((n - i) * (n - i) * p0[k] + 2 * (n - i) * i * p1[k] + i * i * p2[k], n * n)]
=============================================================================
