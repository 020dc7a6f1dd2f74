-------------------------- MODULE LocalWaypointLoop --------------------------
(* The setpoint loop closed with an ideal vehicle that is always where the last setpoint was, flying straight to  *)
(* the goal: limits of the adapted setpoint, no overshoot, arrival; for every start distance, cruise speed, cycle *)
(* time, smoothing and field of view of a small lattice.                                                         *)
EXTENDS LocalWaypoint
VARIABLES s, p, i, ad, n
vars == <<s, p, i, ad, n>>
GoalX == 8000
Goal3 == <<GoalX, 1000, 4000>>
Start(x, cruise, dt, sm, h) ==
  LET q == <<x, 1000, 4000>> IN
  [s |-> [InitWg EXCEPT !.st = "DIRECT", !.sxy = sm[1], !.sz = sm[2], !.fovs = <<[y |-> 0, p |-> 0, h |-> h, v |-> 4600]>>, !.cruise = cruise],
   p |-> q, i |-> [dt |-> dt, pos |-> q, goal |-> Goal3, vel |-> <<0, 0, 0>>, yaw |-> 0, pitch |-> 0, loiter |-> FALSE, air |-> TRUE,
                   nav |-> "auto_loiter", landItem |-> FALSE, takeoffItem |-> FALSE, desired |-> Nan3]]
Init == \E x \in {-2000, 3000, 7500}, c \in {500, 3000, 8000, NaN}, dt \in {500, 1000}, sm \in {<<1000, 300>>, <<0, 0>>, <<100, 100>>}, h \in {6000, 36000} :
          LET t == Start(x, c, dt, sm, h) IN s = t.s /\ p = t.p /\ i = t.i /\ ad = Scale3(t.p, 10) /\ n = 0
NoPath == [ok |-> FALSE, at |-> <<>>]
Next == /\ n < 400
        /\ \E o \in Cycle(s, [i EXCEPT !.pos = p], NoPath, <<>>) : \E f \in Follow(o.s, [i EXCEPT !.pos = p], o.ad, o.goal) :
             \E m \in NextMode(f, [i EXCEPT !.pos = p], FALSE) :
             /\ s' = m /\ ad' = o.ad /\ n' = n + 1 /\ p' = <<RDiv(f.out[1], 10), RDiv(f.out[2], 10), RDiv(f.out[3], 10)>>
             /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Cap == 10 * (IF IsFinite(s.cruise) THEN s.cruise ELSE 2000)
AdaptedWithinSpeed == [][ Len3(Sub3(ad', Scale3(p, 10))) <= Max2(Cap, 10000) + 5 /\ Len3(Sub3(ad', Scale3(p, 10))) <= LenT(Sub3(Goal3, p)) + 5 ]_vars
AdaptedAhead == [][ ad'[1] >= 10 * p[1] - 2 /\ Abs(ad'[2] - 10 * p[2]) <= 2 /\ Abs(ad'[3] - 10 * p[3]) <= 2 ]_vars
SpeedFiltered == [][ s'.speed <= RDiv(Max2(Cap, 10000) * DT(i) + 9000 * s.speed, 9000 + DT(i)) + 2 ]_vars
Straight == p[2] = 1000 /\ p[3] = 4000
NoOvershoot == p[1] <= GoalX + 150
HeadingFrozen == s.head = NaN \/ s.ysp = s.head
Arrives == n = 400 /\ s.cruise # 500 => LenT(Sub3(Goal3, p)) <= 1000
StaysDirect == s.st = "DIRECT"
=============================================================================
