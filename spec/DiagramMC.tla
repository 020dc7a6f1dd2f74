----------------------------- MODULE DiagramMC -----------------------------
(* A diagram says what the machine does: for every small table. *)
EXTENDS Diagram, TLC, Json
CONSTANTS Names, Trans, MaxMaps
VARIABLES table, done
vars == <<table, done>>
Pairs == Trans \X Names
Seqs == {<<>>} \cup UNION {[1..k -> Pairs] : k \in 1..MaxMaps}
Maps == {m \in Seqs : \A i, j \in DOMAIN m : i # j => m[i][1] # m[j][1]}
Init == table = [err |-> "A", states |-> <<>>] /\ done = 0
Next == /\ done < Cardinality(Names)
        /\ \E s \in Names : \E m \in Maps : \E er \in (IF done = 0 THEN Names ELSE {table.err}) :
             /\ \A i \in DOMAIN table.states : table.states[i].name # s
             /\ table' = [err |-> er, states |-> Append(table.states, [name |-> s, maps |-> m])]
        /\ done' = done + 1
Spec == Init /\ [][Next]_vars
All == Trans \cup {"ERROR"}
Faithful == \A d \in {Diagram(table)} : \A i \in DOMAIN table.states : \E s \in {table.states[i].name} :
              /\ \A t \in All : Says(d, s, t, Target(table, s, t))
              /\ Cardinality(Undrawn(d)) <= 1
              /\ \A t \in All : Cardinality(With(d, s, t)) = (IF t = "ERROR" \/ Handles(table.states[i].maps, t) THEN 1 ELSE 0)
              /\ \A k \in DOMAIN d : d[k].from = s => (d[k].dotted <=> ~\E j \in DOMAIN table.states[i].maps : table.states[i].maps[j][2] = d[k].to /\ table.states[i].maps[j][1] = d[k].labels[1])
(* two tables with the same diagram are the same machine on the states they draw *)
NothingElse == \A d \in {Diagram(table)} : \A k \in DOMAIN d : \E i \in DOMAIN table.states : table.states[i].name = d[k].from
(* the tables, for replay *)
Show == done = 0 \/ PrintT(ToJson(<<table>>))
=============================================================================
