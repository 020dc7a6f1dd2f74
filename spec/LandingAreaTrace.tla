--------------------------- MODULE LandingAreaTrace ---------------------------
(***************************************************************************)
(* The landing area and the goal as the running waypoint node draws them: the   *)
(* cells around the middle of the grid, each where it is, centred where the      *)
(* vehicle was when the grid arrived; every goal under a new number.             *)
(***************************************************************************)
EXTENDS LandingDisplay, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, at, grid, slc, goals
vars == <<l, pos, at, grid, slc, goals>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
O == <<NaN, NaN, NaN>>
NONE == [n |-> 0, cell |-> 0]
Init == l = 1 /\ pos = O /\ at = O /\ grid = NONE /\ slc = 6 /\ goals = {}
TNew == Is("New") /\ pos' = O /\ at' = O /\ grid' = NONE /\ slc' = 6 /\ goals' = {}
TPose == Is("pose") /\ pos' = e.p /\ UNCHANGED <<at, grid, slc, goals>>
TCfg == Is("cfg") /\ slc' = e.slc /\ UNCHANGED <<pos, at, grid, goals>>
TGrid == Is("grid") /\ grid' = [n |-> e.n, cell |-> e.cell] /\ at' = pos /\ UNCHANGED <<pos, slc, goals>>
Usable == IsFinite(at[1]) /\ IsFinite(at[2]) /\ Max2(Abs(at[1]), Abs(at[2])) < 1000000
Area == LET n == grid.n w == 2 * slc + 1 first == n \div 2 - slc min == <<at[1] - (n * grid.cell) \div 2, at[2] - (n * grid.cell) \div 2>> IN
        [k \in 1..w * w |-> <<Middle(min[1], grid.cell, first + ((k - 1) \div w)), Middle(min[2], grid.cell, first + ((k - 1) % w))>>]
TTick == /\ Is("tick") /\ UNCHANGED <<pos, at, grid, slc>>
         /\ Chk(l, <<"goal drawn over an older one", e.gid>>, e.gid \notin goals) /\ goals' = goals \cup {e.gid} /\ Chk(l, "goal cannot be seen", e.gplain)
         /\ Chk(l, "cells replace each other", Cardinality({e.area[k].id : k \in 1..Len(e.area)}) = Len(e.area))
         /\ (Usable => \E A \in {Area} :
              /\ ChkEq(l, "cells", Len(A), Len(e.area))
              /\ \A k \in 1..Len(A) : Chk(l, <<"landing area, cell", k, "specified", A[k], "observed", e.area[k]>>,
                   Abs(A[k][1] - e.area[k].p[1]) <= 3 /\ Abs(A[k][2] - e.area[k].p[2]) <= 3 /\ e.area[k].plain
                   /\ Abs(e.area[k].s[1] - grid.cell) <= 1 /\ Abs(e.area[k].s[2] - grid.cell) <= 1))
TOther == l <= Len(Trace) /\ e.op \notin {"New", "pose", "cfg", "grid", "tick"} /\ l' = l + 1 /\ UNCHANGED <<pos, at, grid, slc, goals>>
Next == TNew \/ TPose \/ TCfg \/ TGrid \/ TTick \/ TOther
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
