----------------------------- MODULE MessagesMC -----------------------------
(* Every combination of present (finite), absent (NaN) and infinite components of a position / velocity   *)
(* setpoint: which ones may be flagged valid. Also the generator of the message conformance runs.         *)
EXTENDS SlpWaypoint, Json
CONSTANT Emit
VARIABLES sp, done
Vals(k) == {1000 * k, NaN, Inf}
Init == /\ sp \in {[pos |-> p, vel |-> v] : p \in Vals(1) \X Vals(2) \X Vals(3), v \in Vals(4) \X Vals(-5) \X Vals(6)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED sp
Spec == Init /\ [][Next]_<<sp, done>>
EmitEdge == IF Emit THEN PrintT(ToJson(<<sp>>)) ELSE TRUE
UsableHorizontally == \E v \in {sp.pos, sp.vel} : \A k \in 1..2 : IsFinite(v[k])
UsableVertically == \E v \in {sp.pos, sp.vel} : IsFinite(v[3])
ValidIffUsable == Valid(sp) <=> UsableHorizontally /\ UsableVertically
(* what the landing states command is always usable once position is known *)
s0 == [InitWp EXCEPT !.pos = <<1000, 2000, 8000>>, !.goal = <<1000, 2000, 3000>>, !.lpos = <<0, 0, 8000>>, !.cfg.slc = 0, !.n = 1, !.lg = <<1>>, !.mg = <<0>>,
                       !.hn = 1, !.hyst = <<0>>, !.res = <<1>>, !.land = TRUE]
LandingSetpointsUsable == \A st \in {"ALTITUDE_CHANGE", "LOITER", "EVALUATE_GRID", "LAND"}, c \in BOOLEAN :
   \A o \in Step([s0 EXCEPT !.st = st, !.chg = c, !.vel = sp.vel]) : Len(o.pub) = 1 /\ Valid(o.pub[1])
=============================================================================
