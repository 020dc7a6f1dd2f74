---------------------------- MODULE RiskCacheMC ----------------------------
(* Maps, parameters and a cache of the risk of cells along a corridor: whatever the history, an answer is the risk of the latest
   map under the latest parameters. A risk depends on the cell and, when risk flows, on its neighbours, so that one voxel
   changes the risk of several cells. *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Forget      \* cells 1..N; the events after which cached values are dropped
Cells == 1..N
VARIABLES map, par, cache, answer
vars == <<map, par, cache, answer>>
Single(c) == CASE map[c] = "free" -> 1 [] map[c] = "unknown" -> 2 * par.pen [] map[c] = "obstacle" -> 20
Value(c) == Single(c) + (IF par.flow THEN (IF c > 1 THEN Single(c - 1) ELSE 0) + (IF c < N THEN Single(c + 1) ELSE 0) ELSE 0)
None == -1
Init == /\ map = [c \in Cells |-> "unknown"] /\ par = [flow |-> TRUE, pen |-> 1] /\ cache = [c \in Cells |-> None] /\ answer = <<>>
Cleared(e) == IF e \in Forget THEN [c \in Cells |-> None] ELSE cache
Map == /\ map' \in {[map EXCEPT ![c] = k] : c \in Cells, k \in {"free", "unknown", "obstacle"}} /\ cache' = Cleared("map") /\ answer' = <<>> /\ UNCHANGED par
Reconfigure == /\ par' \in [flow : BOOLEAN, pen : {1, 3}] /\ cache' = Cleared("par") /\ answer' = <<>> /\ UNCHANGED map
Ask(c) == /\ cache' = [cache EXCEPT ![c] = IF @ = None THEN Value(c) ELSE @] /\ answer' = <<c, cache'[c]>> /\ UNCHANGED <<map, par>>
Next == Map \/ Reconfigure \/ \E c \in Cells : Ask(c)
Spec == Init /\ [][Next]_vars
Fresh == answer # <<>> => answer[2] = Value(answer[1])
Consistent == \A c \in Cells : cache[c] # None => cache[c] = Value(c)
=============================================================================
