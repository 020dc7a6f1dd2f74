------------------------------ MODULE Diagram ------------------------------
(***************************************************************************)
(* Flow diagrams of state machines (tools/generate_flow_diagram.py).             *)
(* A table as it is written in the source: [err, states], states a sequence of    *)
(* [name, maps], maps a sequence of <<transition, next state>>.                    *)
(* A diagram is a sequence of edges [from, to, labels, dotted].                     *)
(***************************************************************************)
EXTENDS VPLib
Handles(maps, t) == \E i \in DOMAIN maps : maps[i][1] = t
(* what the machine does *)
Row(tb, s) == LET I == {i \in DOMAIN tb.states : tb.states[i].name = s} IN IF I = {} THEN <<>> ELSE tb.states[CHOOSE i \in I : TRUE].maps
Target(tb, s, t) == LET m == Row(tb, s) IN IF Handles(m, t) THEN m[CHOOSE i \in DOMAIN m : m[i][1] = t][2] ELSE tb.err
(* the edges of a state: its transitions; ERROR, when it is not one of them, joins the first one leading to the error state or gets an edge of its own *)
EdgesOf(row, err) ==
  LET m == row.maps
      plain == [i \in DOMAIN m |-> [from |-> row.name, to |-> m[i][2], labels |-> <<m[i][1]>>, dotted |-> FALSE]]
      J == {i \in DOMAIN m : m[i][2] = err}
  IN IF Handles(m, "ERROR") THEN plain
     ELSE IF J = {} THEN Append(plain, [from |-> row.name, to |-> err, labels |-> <<"ERROR">>, dotted |-> TRUE])
     ELSE LET j == CHOOSE i \in J : \A k \in J : i <= k IN [plain EXCEPT ![j].labels = Append(@, "ERROR")]
RECURSIVE EdgesFrom(_, _)
EdgesFrom(tb, i) == IF i > Len(tb.states) THEN <<>> ELSE EdgesOf(tb.states[i], tb.err) \o EdgesFrom(tb, i + 1)
Diagram(tb) == EdgesFrom(tb, 1)
(* reading a diagram: the edge with the label; a transition which is not drawn leads to the error state: where an ERROR leads, unless the table
   says otherwise, so that the dotted edges tell (and where there are none, the diagram does not say) *)
With(d, s, t) == {i \in DOMAIN d : d[i].from = s /\ \E k \in DOMAIN d[i].labels : d[i].labels[k] = t}
Drawn(d, s) == \E i \in DOMAIN d : d[i].from = s
Undrawn(d) == {d[i].to : i \in {j \in DOMAIN d : d[j].dotted}}
Says(d, s, t, to) == IF With(d, s, t) # {} THEN \A i \in With(d, s, t) : d[i].to = to ELSE Undrawn(d) \subseteq {to}
=============================================================================
