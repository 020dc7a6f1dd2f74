--------------------------- MODULE LocalWaypointMC ---------------------------
(* Exhaustive exploration of the modes: every combination of relative height, navigation mode, mission item,  *)
(* loiter request, motion and path in every cycle. Also generates the histories replayed into the real code.  *)
EXTENDS LocalWaypoint, Json
CONSTANTS Emit, MaxLen
VARIABLES s, in, asked, hist
vars == <<s, in, asked, hist>>
Goal == <<6000, 0, 4000>>
Heights == {1000, 3500, 4000, 5000}
Navs == {"mission", "auto_takeoff", "auto_land", "auto_rtl", "offboard", "auto_loiter"}
Inputs == [h : Heights, nav : Navs, item : {"none", "land", "takeoff"}, loiter : BOOLEAN, air : BOOLEAN, moving : BOOLEAN, fresh : BOOLEAN]
Relevant == {x \in Inputs : (x.item # "none" => x.nav = "mission") /\ (x.moving => x.nav \in {"auto_land", "auto_takeoff", "mission"})}
In(x) == [dt |-> 1000, pos |-> <<0, 0, x.h>>, goal |-> Goal, vel |-> IF x.moving THEN <<600, 0, 0>> ELSE <<0, 0, 0>>, yaw |-> 0, pitch |-> 0,
          loiter |-> x.loiter, air |-> x.air, nav |-> x.nav, landItem |-> x.item = "land", takeoffItem |-> x.item = "takeoff", desired |-> <<0, 0, 500>>]
Path(x) == [ok |-> x.fresh, at |-> IF x.fresh THEN <<30000, 0, 40000>> ELSE <<>>]
Start == [h |-> 4000, nav |-> "none", item |-> "none", loiter |-> FALSE, air |-> FALSE, moving |-> FALSE, fresh |-> FALSE]
Init == s = InitWg /\ in = Start /\ asked = 0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Relevant :
             \E a \in Aim(OnState(s, In(x)), In(x), Path(x)) : \E n \in NextMode(a.s, In(x), x.fresh) :
                /\ s' = n /\ in' = x
                /\ asked' = IF x.loiter THEN Min2(asked + 1, 3) ELSE 0
                /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_vars
View == <<s.st, s.chg, s.land, s.reach, s.sm = Nan3, s.hover = Nan3, in.loiter, asked>>
GenView == <<s.st, s.chg, s.land, s.reach, s.sm = Nan3>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE

Edges == [][ (<<s.st, s'.st>>) \in {<<m, m>> : m \in Modes}
   \cup {<<"TRY_PATH", m>> : m \in Modes} \cup {<<"DIRECT", m>> : m \in Modes} \cup {<<"LOITER", "TRY_PATH">>}
   \cup {<<"ALTITUDE_CHANGE", "TRY_PATH">>, <<"ALTITUDE_CHANGE", "LOITER">>} ]_vars
LoiterHonoured == asked >= 2 => s.st = "LOITER"
LoiterLeft == [][ s.st = "LOITER" => (s'.st = "LOITER" <=> in'.loiter) ]_vars
OffboardOnce == [][ s.reach /\ in'.air => s'.reach ]_vars
NoClimbOnceReached == [][ s.reach /\ in'.air /\ in'.nav = "offboard" => s'.st # "ALTITUDE_CHANGE" ]_vars
LandingKeepsHeightMode == s.land => s.st \in {"ALTITUDE_CHANGE", "LOITER"}
LandPhaseControls == [][ in'.nav = "auto_land" /\ ~in'.loiter /\ s.st \in {"TRY_PATH", "ALTITUDE_CHANGE"} => s'.st = "ALTITUDE_CHANGE" ]_vars
HoldsPosition == [][ s.st = "LOITER" /\ ~s.chg /\ s.hover # Nan3 => s'.hover = s.hover ]_vars
FreshPathFollowed == [][ in'.fresh /\ ~in'.loiter /\ s.st = "DIRECT" => s'.st = "TRY_PATH" ]_vars
TypeOK == s.st \in Modes
=============================================================================
