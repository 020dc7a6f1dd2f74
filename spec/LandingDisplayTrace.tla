------------------------- MODULE LandingDisplayTrace -------------------------
EXTENDS LandingDisplay, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ids, pos, n
vars == <<l, ids, pos, n>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
O == <<0, 0, 0>>
Init == l = 1 /\ ids = {} /\ pos = <<O, O>> /\ n = [grids |-> 0, drawings |-> 0, ways |-> 0]
TNew == Is("New") /\ ids' = {} /\ pos' = <<O, O>> /\ n' = [grids |-> 0, drawings |-> 0, ways |-> 0]
(* a drawing: one plain cube per cell, side by side, in its colour *)
Flat(what, g, z(_)) ==
  /\ ChkEq(l, <<what, "cells">>, e.n * e.n, Len(g.p)) /\ Chk(l, <<what, "not cubes that can be seen">>, g.plain)
  /\ Chk(l, <<what, "cells that replace each other">>, Cardinality({g.id[i] : i \in 1..Len(g.id)}) = Len(g.id))
  /\ \A i \in 1..Len(g.p) : \E c \in {Centre(i - 1, e.n, e.min, e.cell, z(i))} :
       /\ Chk(l, <<what, "cell", i - 1, "specified", c, "observed", g.p[i]>>, NearV(c, g.p[i], 2))
       /\ Chk(l, <<what, "cell", i - 1, "size", g.s[i]>>, Abs(g.s[i][1] - e.cell) <= 1 /\ Abs(g.s[i][2] - e.cell) <= 1)
ColoursOk(what, g, C(_)) == \A i \in 1..Len(g.c) : \E S \in {C(i)} : Chk(l, <<what, "colour of cell", i - 1, "specified", S, "observed", g.c[i]>>, \E c \in S : NearV(c, g.c[i], 2))
Border(i) == Abs(e.sigma[i] - e.std) <= 1
Drawings ==
  /\ Flat("grid", e.grid, LAMBDA i : 0) /\ ColoursOk("grid", e.grid, LAMBDA i : {LandColour(e.land[i])})
  /\ \A i \in 1..Len(e.grid.s) : Chk(l, <<"height of cell", i - 1, "specified", Height(i - 1, e.n, e.smooth), "observed", e.grid.s[i][3]>>, e.grid.s[i][3] = Height(i - 1, e.n, e.smooth))
  /\ Flat("spread", e.dev, LAMBDA i : e.mean[i]) /\ ColoursOk("spread", e.dev, LAMBDA i : {SpreadColour(e.sigma[i], e.std)} \cup (IF Border(i) /\ e.op = "drawing" THEN {Black, Wheel(0)} ELSE {}))
  /\ Flat("count", e.counter, LAMBDA i : 0) /\ ColoursOk("count", e.counter, LAMBDA i : CountColours(e.cnt[i], e.npts))
TCells ==
  /\ Is("cells")
  /\ ChkEq(l, "drawings of the grid", 3, e.arrays) /\ Drawings
  /\ ChkEq(l, "drawn", <<"grid_pointcloud", "path_actual">>, [k \in 1..Len(e.out) |-> e.out[k].t])
  /\ ChkEq(l, "cloud", e.cloud, e.out[1].pts)
  /\ \E m \in {e.out[2]} :
       /\ Chk(l, "the way cannot be seen", m.visible /\ m.k = 4 /\ m.f = "local_origin" /\ m.s[1] > 0 /\ m.act = 0 /\ m.forever)
       /\ ChkEq(l, "segment", <<e.last, e.pos>>, m.pts)
       /\ Chk(l, <<"overwrites the way drawn before", m.id>>, m.id \notin ids)
       /\ ids' = ids \cup {m.id}
  /\ UNCHANGED <<pos, n>>
(* the running node: every cycle, which ends with a grid for the others, draws that grid and the way from the previous to the newest position once *)
TPose == Is("pose") /\ pos' = <<pos[2], <<1000 * e.p[1], 1000 * e.p[2], 0>>>> /\ UNCHANGED <<ids, n>>
TGrid == Is("grid") /\ n' = [n EXCEPT !.grids = @ + 1] /\ UNCHANGED <<ids, pos>>
Even == n.grids = n.drawings /\ n.grids = n.ways
TTick == Is("tick") /\ Chk(l, <<"cycles and what was drawn", n>>, Even) /\ UNCHANGED <<ids, pos, n>>
TDrawing == Is("drawing") /\ Drawings /\ n' = [n EXCEPT !.drawings = @ + 1] /\ UNCHANGED <<ids, pos>>
TWay == /\ Is("way") /\ ChkEq(l, "segment", pos, e.pts) /\ Chk(l, <<"overwrites the way drawn before", e.id>>, e.id \notin ids)
        /\ ids' = ids \cup {e.id} /\ n' = [n EXCEPT !.ways = @ + 1] /\ UNCHANGED pos
TOther == l <= Len(Trace) /\ e.op \notin {"New", "cells", "pose", "grid", "tick", "drawing", "way", "twice"} /\ l' = l + 1 /\ UNCHANGED <<ids, pos, n>>
Next == TNew \/ TCells \/ TPose \/ TGrid \/ TTick \/ TDrawing \/ TWay \/ TOther
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
