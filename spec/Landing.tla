------------------------------ MODULE Landing ------------------------------
(***************************************************************************)
(* The landing planner: per-cell terrain statistics of a stream of point    *)
(* clouds, temporally blended, and the landability decision.                *)
(* Lengths in mm; means in micrometres, variances in mm^2; counters exact.  *)
(* A decision that depends on a comparison closer than the arithmetic       *)
(* tolerance is left open: landability is an interval <<low, high>>.        *)
(***************************************************************************)
EXTENDS VPLib

CeilDiv(a, b) == (a + b - 1) \div b
Idx(n) == (0..n-1) \X (0..n-1)
Flat(n, v) == [c \in Idx(n) |-> v]
EmptyGrid(size, cell) == LET n == CeilDiv(size, cell) IN TLCEval(
   [size |-> size, cell |-> cell, n |-> n, mean |-> Flat(n, 0), var |-> Flat(n, 0), cnt |-> Flat(n, 0)])
DefaultCfg == [npts |-> 1, std |-> 100, smooth |-> 1, mdiff |-> 300, maxdiff |-> 2, minland |-> 9,
               size |-> 10000, cell |-> 1000, alpha |-> 80]
InitLanding == [cfg |-> DefaultCfg, pad |-> 1, upd |-> FALSE, pos |-> <<0, 0>>, pidx |-> <<-1, -1>>,
                cur |-> EmptyGrid(10000, 1000), prev |-> EmptyGrid(10000, 1000)]

Configure(s, c) == [s EXCEPT !.cfg = c, !.upd = (s.cur.size # c.size \/ s.cur.cell # c.cell \/ s.pad # c.smooth)]
SetPose(s, p) == [s EXCEPT !.pos = p]

(* Position -> cell along one axis. Coordinates in half-millimetres relative to the lower grid border; a   *)
(* coordinate "nudged" by less than any representable step towards the inside is odd.                      *)
AxisCell(d, cell, n) == Min2(n - 1, Max2(0, d \div (2 * cell)))
InsideAxis(d, size) == d > 0 /\ d < 2 * size
(* point: <<x, y, z, bad>> with x, y in half-mm, z in mm, bad = some coordinate is not a number *)
CellOf(s, p) == LET g == s.cur lo == [k \in 1..2 |-> 2 * s.pos[k] - g.size] IN
   <<AxisCell(p[1] - lo[1], g.cell, g.n), AxisCell(p[2] - lo[2], g.cell, g.n)>>
InGrid(s, p) == LET g == s.cur lo == [k \in 1..2 |-> 2 * s.pos[k] - g.size] IN
   ~p[4] /\ InsideAxis(p[1] - lo[1], g.size) /\ InsideAxis(p[2] - lo[2], g.size)

(* mean (um) and population variance (mm^2) of the heights of the points with these positions *)
SumOver(S, F(_)) == LET RECURSIVE G(_) G(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN F(t) + G(T \ {t}) IN G(S)
Stats(s, cloud) ==
  LET g == s.cur
      of == TLCEval([i \in 1..Len(cloud) |-> IF InGrid(s, cloud[i]) THEN CellOf(s, cloud[i]) ELSE <<-1, -1>>])
      mem == TLCEval([c \in Idx(g.n) |-> {i \in 1..Len(cloud) : of[i] = c}])
      n(c) == Cardinality(mem[c])
      base(c) == cloud[CHOOSE i \in mem[c] : TRUE][3]
      s1(c) == SumOver(mem[c], LAMBDA i : cloud[i][3] - base(c))
      s2(c) == SumOver(mem[c], LAMBDA i : (cloud[i][3] - base(c)) * (cloud[i][3] - base(c)))
  IN [g EXCEPT !.cnt = TLCEval([c \in Idx(g.n) |-> n(c)]),
               !.mean = TLCEval([c \in Idx(g.n) |-> IF n(c) = 0 THEN 0 ELSE 1000 * base(c) + RDiv(1000 * s1(c), n(c))]),
               !.var = TLCEval([c \in Idx(g.n) |-> IF n(c) = 0 THEN 0 ELSE RDiv(n(c) * s2(c) - s1(c) * s1(c), n(c) * n(c))])]
Blend(new, old, alpha, n) == TLCEval([c \in Idx(n) |-> RDiv(alpha * (old[c] \div 10) + (100 - alpha) * (new[c] \div 10), 10)])
BlendV(new, old, alpha, n) == TLCEval([c \in Idx(n) |-> RDiv(alpha * old[c] + (100 - alpha) * new[c], 100)])
BlendGrid(g, prev, alpha) == [g EXCEPT !.mean = Blend(g.mean, prev.mean, alpha, g.n),
                                       !.var = BlendV(g.var, prev.var, alpha, g.n)]

Resize(s) == IF s.upd THEN [s EXCEPT !.cur = EmptyGrid(s.cfg.size, s.cfg.cell), !.prev = EmptyGrid(s.cfg.size, s.cfg.cell),
                                     !.pad = s.cfg.smooth, !.upd = FALSE]
             ELSE s
PosIdx(s) == LET g == s.cur k == g.size \div (2 * g.cell) IN <<Min2(g.n - 1, k), Min2(g.n - 1, k)>>
(* one cycle on a cloud *)
RunCloud(s0, cloud) == LET s == Resize(s0) t == [s EXCEPT !.prev = s.cur] g == BlendGrid(Stats(t, cloud), t.prev, s.cfg.alpha)
   IN [t EXCEPT !.cur = g, !.pidx = PosIdx(t)]
(* one cycle on a recorded grid r = [size, cell, mean (um), std (mm), cnt] *)
RunRaw(s0, r) ==
   LET s == Resize(s0)
       fits == s.cur.size = r.size /\ s.cur.cell = r.cell
       prev == IF fits THEN s.cur ELSE EmptyGrid(r.size, r.cell)
       n == CeilDiv(r.size, r.cell)
       at(q, c) == q[c[1] * n + c[2] + 1]
       raw == [EmptyGrid(r.size, r.cell) EXCEPT !.mean = [c \in Idx(n) |-> at(r.mean, c)],
                 !.var = [c \in Idx(n) |-> at(r.std, c) * at(r.std, c)], !.cnt = [c \in Idx(n) |-> at(r.cnt, c)]]
       t == [s EXCEPT !.prev = prev, !.cur = raw]
   IN [t EXCEPT !.cur = BlendGrid(raw, prev, s.cfg.alpha), !.pidx = PosIdx(t)]

(* landability *)
VTol(thr) == 20 + thr \div 2       \* mm^2
MTol == 60                         \* um
FlatLo(s, c) == s.cur.cnt[c] >= s.cfg.npts /\ s.cur.var[c] <= s.cfg.std * s.cfg.std - VTol(s.cfg.std)
FlatHi(s, c) == s.cur.cnt[c] >= s.cfg.npts /\ s.cur.var[c] <= s.cfg.std * s.cfg.std + VTol(s.cfg.std)
Window(s, c) == {<<c[1] + k, c[2] + t>> : k \in -s.pad..s.pad, t \in -s.pad..s.pad}
MeanAt(s, c) == IF c \in Idx(s.cur.n) THEN s.cur.mean[c] ELSE 0
Landable(s) ==      \* cell -> <<surely landable, possibly landable>>
  LET D == Idx(s.cur.n)
      lo == TLCEval([c \in D |-> FlatLo(s, c)]) hi == TLCEval([c \in D |-> FlatHi(s, c)])
      nlo(c) == Cardinality({d \in Window(s, c) \cap D : lo[d]})
      nhi(c) == Cardinality({d \in Window(s, c) \cap D : hi[d]})
      mlo(c) == Cardinality({d \in Window(s, c) : Abs(MeanAt(s, c) - MeanAt(s, d)) > 1000 * s.cfg.mdiff + MTol})
      mhi(c) == Cardinality({d \in Window(s, c) : Abs(MeanAt(s, c) - MeanAt(s, d)) > 1000 * s.cfg.mdiff - MTol})
  IN IF s.pad <= 0 THEN TLCEval([c \in D |-> <<lo[c], hi[c]>>])
     ELSE TLCEval([c \in D |-> <<nlo(c) > s.cfg.minland /\ mhi(c) <= s.cfg.maxdiff, nhi(c) > s.cfg.minland /\ mlo(c) <= s.cfg.maxdiff>>])
=============================================================================
