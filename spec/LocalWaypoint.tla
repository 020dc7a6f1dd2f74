---------------------------- MODULE LocalWaypoint ----------------------------
(***************************************************************************)
(* The waypoint generator of the local planner: which mode it is in, which   *)
(* position it aims for and which setpoint it sends. One record s is the     *)
(* whole state, one record i the inputs of a cycle; Step(s, i) is the set of *)
(* possible outcomes (several only where a comparison is closer than the     *)
(* arithmetic tolerance). Lengths 1/10 mm, velocities mm/s (speed: 1/10      *)
(* mm/s), inputs in mm, headings 1/100000 rad, time in 1/10 ms.              *)
(***************************************************************************)
EXTENDS PathFollow, Common

Nan3 == <<NaN, NaN, NaN>>
Modes == {"TRY_PATH", "ALTITUDE_CHANGE", "LOITER", "DIRECT"}
InitWg == [st |-> "LOITER", chg |-> FALSE, land |-> FALSE, reach |-> FALSE, hover |-> Nan3, yawAlt |-> 0, posAlt |-> Nan3,
           sm |-> Nan3, sv |-> <<0, 0, 0>>, out |-> Nan3, ysp |-> 0, yv |-> 0, speed |-> 0, head |-> NaN,
           sxy |-> 1000, sz |-> 300, fovs |-> <<>>, cruise |-> NaN, age |-> 0, pts |-> <<>>, started |-> FALSE]

(* ------------------------------------------------------------- inputs of a cycle: i.dt (1/10 ms), pos, goal (mm), vel (mm/s), *)
(* yaw, pitch (1/100 degree), loiter, air, nav, landItem, takeoffItem, desired (velocity passed on while changing height)        *)
P(i) == Scale3(i.pos, 10)
G(i) == Scale3(i.goal, 10)

(* ------------------------------------------------------------- the modes *)
Climb(i) == IF i.pos[3] > i.goal[3] - 800 THEN {FALSE} ELSE IF i.pos[3] < i.goal[3] - 800 THEN {TRUE} ELSE BOOLEAN
(* is a change of height needed? outcomes [need, land, reach] *)
HeightChange(s, i) ==
  { LET land == i.nav = "auto_land" \/ (i.nav = "mission" /\ i.landItem)
        takeoff == i.nav = "auto_takeoff" \/ (i.nav = "mission" /\ i.takeoffItem) \/ (i.nav = "auto_rtl" /\ climb)
        offb == i.nav = "offboard" /\ ~s.reach
        there == offb /\ i.pos[3] >= i.goal[3]
    IN [need |-> (offb \/ takeoff \/ land) /\ ~there, land |-> land, reach |-> s.reach \/ there] : climb \in Climb(i) }
To(s, st) == [s EXCEPT !.st = st, !.chg = TRUE]
Stay(s) == [s EXCEPT !.chg = FALSE]
Height(s, h) == [s EXCEPT !.land = h.land, !.reach = h.reach]
(* the mode of the next cycle; fresh: the stored path can still be followed *)
NextMode(s, i, fresh) ==
  CASE s.st = "TRY_PATH" ->
         IF i.loiter THEN {To(s, "LOITER")}
         ELSE { IF h.need THEN To(Height(s, h), "ALTITUDE_CHANGE") ELSE IF fresh THEN Stay(Height(s, h)) ELSE To(Height(s, h), "DIRECT") : h \in HeightChange(s, i) }
    [] s.st = "ALTITUDE_CHANGE" ->
         IF i.loiter THEN {To(s, "LOITER")}
         ELSE { IF h.need THEN Stay(Height(s, h)) ELSE To(Height(s, h), "TRY_PATH") : h \in HeightChange(s, i) }
    [] s.st = "LOITER" -> IF i.loiter THEN {Stay(s)} ELSE {To(s, "TRY_PATH")}
    [] s.st = "DIRECT" ->
         IF fresh THEN {To(s, "TRY_PATH")}
         ELSE { IF h.need THEN To(Height(s, h), "ALTITUDE_CHANGE")
                ELSE IF i.loiter THEN To(Height(s, h), "LOITER") ELSE Stay(Height(s, h)) : h \in HeightChange(s, i) }

(* ------------------------------------------------------------- new vehicle state *)
OnState(s, i) ==
  LET a == IF ~i.air \/ s.sm = Nan3
           THEN [s EXCEPT !.sm = P(i), !.sv = <<0, 0, 0>>, !.ysp = Rad5(i.yaw), !.yv = 0, !.reach = FALSE] ELSE s
  IN IF a.land THEN [a EXCEPT !.sm = P(i), !.sv = <<0, 0, 0>>] ELSE a

(* ------------------------------------------------------------- where to go: [s, dir (towards), to, goal, vel, fixed] *)
(* dir is the direction aimed at (before normalisation), fixed: the setpoint is not adapted                         *)
Moving(i) == LET n == i.vel[1] * i.vel[1] + i.vel[2] * i.vel[2] IN IF n > 250000 THEN {TRUE} ELSE IF n < 250000 THEN {FALSE} ELSE BOOLEAN
Aim(s, i, path) ==
  LET p == P(i) g == G(i) IN
  CASE s.st = "TRY_PATH" ->
         LET d == IF path.at = <<>> \/ path.at = Nan3 THEN <<0, 0, 0>> ELSE Sub3(path.at, p) IN
         {[s |-> s, dir |-> d, to |-> Add3(p, Unit(d)), goal |-> g, vel |-> Nan3, sm |-> s.out]}
    [] s.st = "DIRECT" ->
         LET d == Sub3(g, p) IN
         {[s |-> s, dir |-> d, to |-> Add3(p, Unit(d)), goal |-> g, vel |-> Nan3, sm |-> s.out]}
    [] s.st = "LOITER" ->
         LET a == [s EXCEPT !.hover = IF s.chg \/ s.hover = Nan3 THEN p ELSE @, !.land = FALSE] IN
         {[s |-> a, dir |-> Sub3(a.hover, p), to |-> a.hover, goal |-> g, vel |-> Nan3, sm |-> s.out]}
    [] s.st = "ALTITUDE_CHANGE" ->
         LET a == IF s.chg THEN [s EXCEPT !.yawAlt = Rad5(i.yaw), !.posAlt = p] ELSE s IN
         IF i.nav = "offboard" THEN
           LET d == <<0, 0, IF ~i.air THEN 0 ELSE IF i.pos[3] <= i.goal[3] THEN 10000 ELSE -10000>> IN
           {[s |-> a, dir |-> d, to |-> Add3(p, d), goal |-> <<p[1], p[2], g[3]>>, vel |-> Nan3, sm |-> s.out]}
         ELSE { IF m THEN [s |-> [a EXCEPT !.posAlt = p], dir |-> <<0, 0, 0>>, to |-> p, goal |-> g, vel |-> <<0, 0, NaN>>, sm |-> p]
                ELSE LET t == <<a.posAlt[1], a.posAlt[2], g[3]>> IN
                     [s |-> a, dir |-> Sub3(t, p), to |-> t, goal |-> g, vel |-> i.desired, sm |-> IF a.land THEN t ELSE s.out] : m \in Moving(i) }

(* ------------------------------------------------------------- heading *)
DT(i) == Max2(i.dt, 1)
Root(x) == IF x <= 500 THEN ISqrt(4000000 * x) ELSE 2 * ISqrt(1000000 * x)      \* 2 sqrt(x / 100), in 1/10000
YawWish(a, i) ==      \* desired heading
  IF a.s.st = "ALTITUDE_CHANGE" THEN {a.s.yawAlt}
  ELSE LET d == LenXY(Sub3(a.to, P(i))) IN
       (IF d > 995 THEN {Atan2(a.dir[2], a.dir[1])} ELSE {}) \cup (IF d < 1005 THEN {Rad5(i.yaw)} ELSE {})
Turn(s, i, wish) ==   \* smoothed heading
  IF s.sxy <= 1 THEN {[s EXCEPT !.ysp = wish]}
  ELSE LET w == WrapPi(wish - s.ysp)
           diffs == IF Abs(w) > Pi5 - 60 THEN {w, IF w > 0 THEN w - 2 * Pi5 ELSE w + 2 * Pi5} ELSE {w}
       IN { LET yv == s.yv + MulDiv(MulDiv(d, s.sxy, 100) - MulDiv(s.yv, Root(s.sxy), 10000), DT(i), 10000)
            IN [s EXCEPT !.yv = yv, !.ysp = WrapPi(@ + MulDiv(yv, DT(i), 10000))] : d \in diffs }

(* ------------------------------------------------------------- speed and goal capture *)
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
GoalDist(a, i) == Len3(Sub3(a.goal, P(i)))
NearGoal(a, i) == LET d == MulDiv3(Sub3(a.goal, P(i)), 1, 10) IN
   IF \E k \in 1..3 : Abs(d[k]) > 1000 THEN {FALSE} ELSE IF Sq(d) < 1000000 THEN {TRUE} ELSE IF Sq(d) > 1000000 THEN {FALSE} ELSE BOOLEAN
Azimuth(a, i) ==      \* of the direction aimed at, seen from the vehicle (1/100 degree)
  LET d == a.dir flat == d[1] = 0 /\ d[2] = 0
      z == IF flat THEN 9000 ELSE CDeg(Atan2(d[2], d[1]))
      e == -CDeg(Atan2(d[3], LenXY(d)))
  IN WrapPolar(e - i.pitch, z - i.yaw)[2]
Scales(fs, z) ==
  LET at(y) == {ScaleOf(fs, y, k) : k \in EdgeOf(fs, y)} c == at(z) IN
  c \cup {x \in at(z - 4) \cup at(z + 4) : \A y \in c : Abs(x - y) > 60}
Allowed(a, i) ==
  LET t == 10 * (IF IsFinite(a.s.cruise) THEN a.s.cruise ELSE 2000) IN
  IF a.s.st = "ALTITUDE_CHANGE" THEN {t} ELSE {MulDiv(t, x, 10000) : x \in Scales(a.s.fovs, Azimuth(a, i))}
Filter(s, i, target, gd) ==
  Min2(gd, RDiv(target * DT(i) + 9000 * s.speed, 9000 + DT(i)))
(* outcomes [s, to, ad] *)
Adapt(a, i) ==
  LET gd == GoalDist(a, i) p == P(i) IN
  UNION { UNION { LET to == IF near THEN a.goal ELSE a.to
                      sp == Filter(a.s, i, target, gd)
                      v == Sub3(to, p) n == Len3(v)
                      h == IF near THEN (IF IsFinite(a.s.head) THEN a.s.head ELSE Rad5(i.yaw)) ELSE NaN
                      t == [a.s EXCEPT !.speed = sp, !.head = h, !.ysp = IF near THEN h ELSE @]
                      long == {[s |-> t, to |-> to, ad |-> Add3(p, MulDiv3(Unit(v), sp, 10000)), seen |-> TRUE]}
                      short == {[s |-> t, to |-> to, ad |-> Add3(p, MulDiv3(v, sp, 10000)), seen |-> FALSE]}
                  IN (IF n > 995 THEN long ELSE {}) \cup (IF n < 1005 THEN short ELSE {})
                : target \in (IF near THEN {gd} ELSE Allowed(a, i)) } : near \in NearGoal(a, i) }

(* ------------------------------------------------------------- smoothing of the setpoint *)
Follow(s, i, ad, goal) ==      \* outcomes: states with sm, sv advanced and out set
  IF s.sxy <= 0 \/ s.sz <= 0 THEN {[s EXCEPT !.out = ad]}
  ELSE LET d == Len3(Sub3(ad, goal))
           wishes == (IF d < 1010 THEN {<<0, 0, 0>>} ELSE {}) \cup (IF d > 990 THEN {Scale3(i.vel, 10)} ELSE {})
           one(k, w) == LET c == IF k = 3 THEN s.sz ELSE s.sxy IN
                        s.sv[k] + MulDiv(MulDiv(ad[k] - s.sm[k], c, 100) + MulDiv(w[k] - s.sv[k], Root(c), 10000), DT(i), 10000)
       IN { LET v == <<one(1, w), one(2, w), one(3, w)>>
                x == <<s.sm[1] + MulDiv(v[1], DT(i), 10000), s.sm[2] + MulDiv(v[2], DT(i), 10000), s.sm[3] + MulDiv(v[3], DT(i), 10000)>>
            IN [s EXCEPT !.sv = v, !.sm = x, !.out = x] : w \in wishes }

(* ------------------------------------------------------------- one cycle *)
(* outcomes up to the speed adaptation: [s, to, ad, goal, vel, fixed]: s is the state before smoothing and mode change *)
(* given: <<>> or an observed position to go to, which then replaces the specified one                                  *)
Aimed(a, i, given) == IF given = <<>> \/ LenT(Sub3(given, P(i))) <= 200 \/ NearGoal(a, i) # {FALSE} THEN a
                      ELSE [a EXCEPT !.to = given, !.dir = Sub3(given, P(i))]
Cycle(s0, i, path, given) ==
  UNION { UNION { UNION {
      LET b == [a EXCEPT !.s = t] IN
      IF a.s.land THEN {[s |-> [t EXCEPT !.out = a.sm], to |-> a.to, ad |-> a.to, goal |-> a.goal, vel |-> a.vel, fixed |-> TRUE, seen |-> FALSE, dir |-> a.dir]}
      ELSE {[s |-> x.s, to |-> x.to, ad |-> x.ad, goal |-> a.goal, vel |-> a.vel, fixed |-> FALSE, seen |-> x.seen, dir |-> a.dir] : x \in Adapt(b, i)}
    : t \in Turn(a.s, i, wish) } : wish \in YawWish(a, i) } : a \in {Aimed(b, i, given) : b \in Aim(OnState(s0, i), i, path)} }
=============================================================================
