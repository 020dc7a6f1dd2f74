---------------------------- MODULE SlpWaypoint ----------------------------
(***************************************************************************)
(* The landing waypoint generator and its node: from grids, poses, mission  *)
(* items and flight modes to the setpoint sent to the flight controller.    *)
(* Lengths mm, velocities mm/s, yaw in 1/10000 rad, smoothed landability in *)
(* millionths. One record s is the whole state; Step(s) is the set of       *)
(* possible outcomes of one decision step (more than one only where a       *)
(* comparison is closer than the arithmetic tolerance).                     *)
(***************************************************************************)
EXTENDS Trig

Towards == 2000000005         \* yaw setpoint "from the position to the goal"
Nan3 == <<NaN, NaN, NaN>>
LandSpeed == 700
LandCommand == 21
Pattern == << <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>> >>
DefaultCfg == [slc |-> 6, beta |-> 90, thr |-> 400000, lheight |-> 8000, vre |-> 500, spiral |-> 2000]
Zeros(n) == TLCEval([i \in 1..n * n |-> 0])

InitWp == [st |-> "GOTO", chg |-> FALSE, rst |-> FALSE, land |-> FALSE, dec |-> FALSE, can |-> TRUE,
           exp |-> FALSE, nexp |-> -1, fac |-> 1, rad |-> 2000, start |-> 0, seq |-> 0,
           n |-> 10, cell |-> 1000, lg |-> Zeros(10), mg |-> Zeros(10), hn |-> 0, hyst |-> <<>>, res |-> <<>>,
           pos |-> Nan3, yaw |-> NaN, goal |-> Nan3, vel |-> Nan3, ysp |-> NaN, yr |-> NaN,
           lpos |-> Nan3, lyaw |-> NaN, anchor |-> Nan3, gv |-> <<0, 0, 0>>, cfg |-> DefaultCfg, got |-> FALSE]

(* ---- messages *)
OnPose(s, p, yaw) == [s EXCEPT !.pos = p, !.yaw = yaw]
AnyNaN(v) == \E i \in 1..Len(v) : ~IsFinite(v[i])
Moved(s, p2) == ~AnyNaN(p2) /\ Norm3(p2[1] - s.gv[1], p2[2] - s.gv[2], p2[3] - s.gv[3]) > 10
OnTrajectory(s, m) ==      \* m: p1 v1 ok1 / p2 yaw2 yr2 ok2 / cmd = command of the second point
  LET upd == ((~AnyNaN(s.gv) /\ Moved(s, m.p2)) \/ AnyNaN(<<s.goal[1], s.goal[2]>>)) /\ m.ok1
      t == IF upd THEN [s EXCEPT !.goal = m.p1, !.vel = m.v1, !.land = (m.cmd = LandCommand),
                                        !.rst = s.rst \/ s.st # "GOTO"] ELSE s
  IN IF m.ok2 THEN [t EXCEPT !.gv = m.p2, !.ysp = m.yaw2, !.yr = m.yr2] ELSE t
OnMode(s, mode, armed) ==
  LET t == IF mode = "AUTO.LAND" THEN [s EXCEPT !.land = TRUE]
           ELSE IF mode = "AUTO.MISSION" THEN s ELSE [s EXCEPT !.land = FALSE, !.rst = TRUE]
  IN IF armed THEN t ELSE [t EXCEPT !.land = FALSE, !.rst = TRUE]
OnGrid(s, g) == [s EXCEPT !.seq = g.seq, !.n = g.n, !.cell = g.cell, !.lg = g.land, !.mg = g.mean, !.got = TRUE]
OnCfg(s, c) == [s EXCEPT !.cfg = c]

(* ---- queries *)
At(s, q, i, j) == q[i * s.n + j + 1]           \* 0 <= i, j < n
PatchFits(s) == s.n \div 2 - s.cfg.slc >= 0 /\ s.n \div 2 + s.cfg.slc < s.n
InMask(s, a, b) == LET c == 2 * s.cfg.slc + 1 IN 4 * (a * a + b * b) < c * c     \* round patch, offsets from its centre
MaskSet(s) == {<<a, b>> \in (-s.cfg.slc..s.cfg.slc) \X (-s.cfg.slc..s.cfg.slc) : InMask(s, a, b)}
Percentile(s) ==           \* 80th percentile of the mean heights of the square patch around the grid centre
  LET c == s.n \div 2 k == s.cfg.slc
      vals == [i \in 1..(2 * k + 1) * (2 * k + 1) |-> At(s, s.mg, c - k + (i - 1) \div (2 * k + 1), c - k + ((i - 1) % (2 * k + 1)))]
      N == (2 * k + 1) * (2 * k + 1)
      rank == Min2(RDiv(80 * N, 100), N - 1)      \* 0-based
      sorted == SortSeq(TLCEval(vals), LAMBDA x, y : x < y)
  IN sorted[rank + 1]
DistXY(s) == Norm2(s.goal[1] - s.pos[1], s.goal[2] - s.pos[2])
Within(s, rad) == IF AnyNaN(<<s.goal[1], s.goal[2], s.pos[1], s.pos[2]>>) THEN {FALSE}
                  ELSE IF DistXY(s) <= rad - 6 THEN {TRUE} ELSE IF DistXY(s) >= rad + 6 THEN {FALSE} ELSE BOOLEAN
Above(s, alt) == Abs(s.pos[3] - alt) - s.cfg.lheight
InVerticalRange(s, alt) == Abs(Above(s, alt)) < s.cfg.vre

Sp(p, v, y, r) == << [pos |-> p, vel |-> v, yaw |-> y, yr |-> r] >>
Stay(s, pub) == {[s |-> [s EXCEPT !.chg = FALSE], pub |-> pub]}
Go(s, to, pub) == {[s |-> [s EXCEPT !.st = to, !.chg = TRUE], pub |-> pub]}

(* ---- the states *)
Forget(s) == [s EXCEPT !.dec = FALSE, !.can = TRUE, !.hyst = Zeros(s.hn), !.exp = FALSE, !.nexp = -1, !.fac = 1, !.rad = 2000]
Update(s) ==
  LET t == IF s.hn # s.n THEN [s EXCEPT !.hn = s.n, !.hyst = Zeros(s.n), !.res = Zeros(s.n)] ELSE s
  IN IF ~t.land \/ t.rst THEN [Forget(t) EXCEPT !.rst = t.rst \/ t.st # "GOTO"] ELSE t

GoTo(s) ==
  LET a == [s EXCEPT !.rad = IF s.exp THEN 500 ELSE @, !.ysp = IF s.exp THEN Towards ELSE @, !.hyst = Zeros(s.hn)]
      pub == Sp(a.goal, a.vel, a.ysp, a.yr)
      ex == LET b == [a EXCEPT !.anchor = IF a.exp THEN @ ELSE a.lpos, !.exp = TRUE,
                                !.nexp = IF a.nexp = 7 THEN 0 ELSE @ + 1, !.fac = IF a.nexp = 7 THEN @ + 1 ELSE @]
                off == (RDiv(b.cfg.spiral * b.fac * 2 * b.cfg.slc, 10) * b.cell) \div 100
                d == Pattern[b.nexp + 1]
            IN [b EXCEPT !.goal = <<b.anchor[1] + off * d[1], b.anchor[2] + off * d[2], b.anchor[3]>>, !.vel = Nan3, !.dec = FALSE]
  IN UNION { IF w /\ a.land /\ ~a.dec THEN Go(a, "ALTITUDE_CHANGE", pub)
             ELSE IF w /\ a.land /\ a.dec /\ ~a.can THEN Stay(ex, pub)
             ELSE Stay(a, pub) : w \in Within(a, a.rad) }

AltitudeChange(s) ==
  LET alt == Percentile(s)
      a == [s EXCEPT !.lyaw = IF s.chg THEN s.yaw ELSE @, !.goal[3] = NaN,
                     !.vel[3] = IF Above(s, alt) < 0 THEN LandSpeed ELSE -LandSpeed]
      pub == Sp(a.goal, a.vel, a.lyaw, a.yr)
  IN IF InVerticalRange(s, alt) THEN Go([a EXCEPT !.start = s.seq], "LOITER", pub) ELSE Stay(a, pub)

Smooth(s) == TLCEval([i \in 1..s.n * s.n |-> RDiv(s.cfg.beta * s.hyst[i] + (100 - s.cfg.beta) * 1000000 * s.lg[i], 100)])
Decide(s) == TLCEval([i \in 1..s.n * s.n |-> IF s.hyst[i] > s.cfg.thr + 20 THEN 1 ELSE IF s.hyst[i] < s.cfg.thr - 20 THEN 0 ELSE 2])
Loiter(s) ==
  LET a == IF s.chg THEN [s EXCEPT !.lpos = s.pos, !.goal = s.pos] ELSE s
      pub == Sp(a.lpos, Nan3, a.lyaw, NaN)
  IN IF Abs(a.seq - a.start) <= 20 THEN Stay([a EXCEPT !.hyst = Smooth(a)], pub)
     ELSE Go([a EXCEPT !.res = Decide(a)], "EVALUATE_GRID", pub)

(* candidate sites in the order they are tried, as cell offsets from the grid centre *)
Rounds(s) == (1 + (s.n - (2 * s.cfg.slc + 1))) \div 2
Sites(s) == << <<0, 0>> >> \o [k \in 1..8 * Max2(0, Rounds(s) - 1) |-> LET i == 1 + (k - 1) \div 8 d == Pattern[1 + ((k - 1) % 8)] IN <<d[1] * i, d[2] * i>>]
PatchLevel(s, d) ==       \* 0: certainly not, 1: certainly, 2: open
  LET c == s.n \div 2 vs == {At(s, s.res, c + d[1] + m[1], c + d[2] + m[2]) : m \in MaskSet(s)} IN
  IF 0 \in vs THEN 0 ELSE IF 2 \in vs THEN 2 ELSE 1
Evaluate(s) ==
  LET a == [s EXCEPT !.rad = 500, !.dec = TRUE]
      pub == Sp(s.lpos, Nan3, s.lyaw, NaN)
      S == TLCEval(Sites(s)) lev == TLCEval([k \in 1..Len(S) |-> PatchLevel(s, S[k])])
      free(k) == \A j \in 1..k - 1 : lev[j] # 1
      accept(k) == IF k = 1 THEN [a EXCEPT !.can = TRUE]
                   ELSE [a EXCEPT !.can = TRUE, !.vel[3] = NaN,
                           !.goal = <<s.pos[1] + S[k][1] * s.cell, s.pos[2] + S[k][2] * s.cell, s.pos[3]>>]
  IN UNION { Go(accept(k), "GOTO_LAND", pub) : k \in {k \in 1..Len(S) : lev[k] # 0 /\ free(k)} }
     \union (IF \A k \in 1..Len(S) : lev[k] # 1 THEN Go([a EXCEPT !.can = FALSE], "GOTO", pub) ELSE {})

GoToLand(s) == LET pub == Sp(s.goal, s.vel, Towards, s.yr) IN
   UNION { IF w THEN Go(s, "LAND", pub) ELSE Stay(s, pub) : w \in Within(s, s.rad) }
Land(s) ==
  LET a == [s EXCEPT !.lpos = IF s.chg THEN <<s.pos[1], s.pos[2], NaN>> ELSE <<@[1], @[2], NaN>>, !.lyaw = IF s.chg THEN s.yaw ELSE @]
  IN Stay(a, Sp(a.lpos, <<NaN, NaN, -LandSpeed>>, a.lyaw, NaN))

Run(s) == IF s.rst THEN {[s |-> [s EXCEPT !.st = "GOTO", !.chg = TRUE, !.rst = FALSE], pub |-> <<>>]}
          ELSE CASE s.st = "GOTO" -> GoTo(s) [] s.st = "ALTITUDE_CHANGE" -> AltitudeChange(s) [] s.st = "LOITER" -> Loiter(s)
                 [] s.st = "EVALUATE_GRID" -> Evaluate(s) [] s.st = "GOTO_LAND" -> GoToLand(s) [] s.st = "LAND" -> Land(s)
Step(s) == Run([Update(s) EXCEPT !.got = FALSE])

(* landability shown around the centre after a step: the patch of the last decision *)
Shown(s) == LET c == s.n \div 2 k == s.cfg.slc IN
   TLCEval([i \in 1..(2 * k + 1) * (2 * k + 1) |->
      LET a == ((i - 1) \div (2 * k + 1)) - k b == ((i - 1) % (2 * k + 1)) - k IN
      IF InMask(s, a, b) THEN At(s, s.res, c + a, c + b) ELSE 0])
Valid(sp) == ((IsFinite(sp.pos[1]) /\ IsFinite(sp.pos[2])) \/ (IsFinite(sp.vel[1]) /\ IsFinite(sp.vel[2])))
             /\ (IsFinite(sp.pos[3]) \/ IsFinite(sp.vel[3]))
=============================================================================
