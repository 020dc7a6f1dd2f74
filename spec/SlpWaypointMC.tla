--------------------------- MODULE SlpWaypointMC ---------------------------
(* Exhaustive exploration of the landing state machine over a 7 x 7 grid; every step delivers at most one *)
(* mission / mode / pose message and one grid. Also the generator of transition-covering histories.       *)
EXTENDS SlpWaypoint, Json
CONSTANTS Emit, MaxLen, Good
VARIABLES s, hist, found, round
vars == <<s, hist, found, round>>
N == 7
Cfg1 == [DefaultCfg EXCEPT !.slc = 1, !.beta = 50]
LandAll == [i \in 1..N * N |-> 1]
LandNone == [i \in 1..N * N |-> 0]
LandSite == [i \in 1..N * N |-> LET r == (i - 1) \div N c == (i - 1) % N IN IF r \in 2..4 /\ c \in 3..5 THEN 1 ELSE 0]  \* site <<0, 1>>
Flat0 == [i \in 1..N * N |-> 0]
Grids == IF Good THEN {LandAll} ELSE {LandAll, LandNone, LandSite}
Traj(x, cmd) == [op |-> "traj", p1 |-> <<x, 0, 5000>>, v1 |-> <<500, 0, 0>>, ok1 |-> TRUE, p2 |-> <<x, 0, 5000>>, yaw2 |-> 1000, yr2 |-> 2000, ok2 |-> TRUE, cmd |-> cmd]
Fin(v) == IF IsFinite(v) THEN v ELSE 0
PoseAt(dx, z) == [op |-> "pose", p |-> <<Fin(s.goal[1]) + dx, Fin(s.goal[2]), z>>, yaw |-> 5000]
Msgs == IF Good THEN {PoseAt(0, 8000)}
        ELSE {[op |-> "none"], PoseAt(0, 8000), PoseAt(1000, 8000), PoseAt(5000, 8000), PoseAt(0, 12000), PoseAt(0, 3000),
              Traj(1000, 21), Traj(-4000, 21), Traj(3000, 16),
              [op |-> "mode", mode |-> "AUTO.LAND", armed |-> TRUE], [op |-> "mode", mode |-> "POSCTL", armed |-> TRUE],
              [op |-> "mode", mode |-> "AUTO.MISSION", armed |-> FALSE], [op |-> "relaunch"]}
Apply(t, m) == CASE m.op = "none" -> t
                 [] m.op = "pose" -> OnPose(t, m.p, m.yaw)
                 [] m.op = "traj" -> OnTrajectory(t, m)
                 [] m.op = "mode" -> OnMode(t, m.mode, m.armed)
                 [] m.op = "relaunch" -> OnMode(OnMode(t, "POSCTL", TRUE), "AUTO.LAND", TRUE)
Init == /\ s = OnTrajectory(OnPose(OnCfg(InitWp, Cfg1), <<0, 0, 8000>>, 5000), Traj(1000, 21))
        /\ hist = <<>> /\ found = FALSE /\ round = 0
Next == /\ Len(hist) < MaxLen
        /\ \E m \in Msgs, g \in Grids :
             LET seq == s.seq + 11
                 t == OnGrid(Apply(s, m), [seq |-> seq, n |-> N, cell |-> 1000, land |-> g, mean |-> Flat0]) IN
             \E o \in Step(t) : /\ s' = [o.s EXCEPT !.ysp = IF @ = Towards THEN 1 ELSE @]
                                /\ hist' = Append(hist, [m |-> m, seq |-> seq, land |-> IF g = LandAll THEN 1 ELSE IF g = LandNone THEN 0 ELSE 2])
                                /\ round' = Min2(round + 1, 12)
                                /\ found' = IF o.s.st = "GOTO" THEN FALSE ELSE IF s.st = "EVALUATE_GRID" /\ o.s.st = "GOTO_LAND" THEN TRUE ELSE found
Spec == Init /\ [][Next]_vars
View == <<[s EXCEPT !.seq = 0, !.start = Min2(s.seq - s.start, 22)], found, Len(hist)>>
GenView == <<[s EXCEPT !.seq = 0, !.start = Min2(s.seq - s.start, 22), !.lg = 0], found>>
(* histories that end with a change of state, of the exploration or of the decision *)
EmitEdge == IF Emit /\ <<s.st, s.nexp, s.dec, s.land, s.can>> # <<s'.st, s'.nexp, s'.dec, s'.land, s'.can>> THEN PrintT(ToJson(hist')) ELSE TRUE

LandingOnlyAfterFound == s.st \in {"GOTO_LAND", "LAND"} => found
DecidedWhileLanding == s.st \in {"GOTO_LAND", "LAND"} /\ s.land => s.dec /\ s.can
Edges == [][ (<<s.st, s'.st>>) \in {<<a, a>> : a \in {"GOTO", "ALTITUDE_CHANGE", "LOITER", "GOTO_LAND", "LAND"}}
              \union {<<"GOTO", "ALTITUDE_CHANGE">>, <<"ALTITUDE_CHANGE", "LOITER">>, <<"LOITER", "EVALUATE_GRID">>, <<"EVALUATE_GRID", "GOTO">>,
                      <<"EVALUATE_GRID", "GOTO_LAND">>, <<"GOTO_LAND", "LAND">>}
              \union {<<a, "GOTO">> : a \in {"ALTITUDE_CHANGE", "LOITER", "EVALUATE_GRID", "GOTO_LAND", "LAND"}} ]_vars
NoPendingReset == ~s.rst
HoldsPositionWhileLanding == [][ s.st = "LAND" /\ s'.st = "LAND" /\ ~s.chg => s'.lpos = s.lpos /\ s'.lyaw = s.lyaw ]_vars
ExplorationBounded == s.nexp \in -1..7 /\ s.fac >= 1 /\ (s.nexp >= 0 <=> s.exp)
SmoothedFromZero == s.st # "LOITER" => s.st \in {"EVALUATE_GRID", "GOTO_LAND", "LAND"} \/ \A i \in 1..Len(s.hyst) : s.hyst[i] = 0
(* with the vehicle kept at its goal at loiter height over landable ground, the landing is under way within 9 steps *)
GoodLanding == Good /\ round >= 9 => s.st = "LAND"
=============================================================================
