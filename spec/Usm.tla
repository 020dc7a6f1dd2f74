------------------------------- MODULE Usm --------------------------------
(* The shared state-machine engine, for an arbitrary transition table.
   A table maps <<state, transition>> pairs to states; unmapped pairs go to `err`. *)
EXTENDS VPLib
Transitions == {"REPEAT", "NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"}

VARIABLES state, runs, chosen, table, err
usmVars == <<state, runs, chosen, table, err>>

Key(s, t) == <<s, t>>
Target(tb, er, s, t) == IF Key(s, t) \in DOMAIN tb THEN tb[Key(s, t)] ELSE er

(* One iteration in which the running state asks for transition t. runs[s] counts how often the action of
   state s ran, chosen counts consultations of the table. *)
Iterate(t) ==
  /\ runs' = [runs EXCEPT ![state] = @ + 1]
  /\ IF t = "REPEAT" THEN UNCHANGED <<state, chosen>>
     ELSE state' = Target(table, err, state, t) /\ chosen' = chosen + 1
  /\ UNCHANGED <<table, err>>
=============================================================================
