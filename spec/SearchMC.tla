------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* The search of the global planner as a state machine: a queue of cells with   *)
(* priorities (stale entries included), expanded in order of priority, ties in   *)
(* any order; the path is read back from the parents. On every small map of      *)
(* free, risky and blocked cells: paths are legal and connected, failures mean   *)
(* that there is no path, and without overestimation paths are cheapest.          *)
(***************************************************************************)
EXTENDS Cells, TLC
CONSTANTS Dims, Factors, Goals
DimsV == <<3, 2, 1>>
GoalsV == {<<2, 1, 0>>, <<2, 0, 0>>}
DimsH == <<2, 2, 2>>
GoalsH == {<<1, 1, 1>>, <<0, 0, 1>>}
DimsW == <<3, 3, 1>>
GoalsW == {<<2, 2, 0>>, <<2, 1, 0>>, <<1, 0, 0>>}
Cs == (0..Dims[1] - 1) \X (0..Dims[2] - 1) \X (0..Dims[3] - 1)
S0 == <<0, 0, 0>>
Nb == [c \in Cs |-> Around(c) \cap Cs]
None == <<-1, -1, -1>>
Far == 100000
VARIABLES map, goal, factor, q, seen, dist, par, phase
vars == <<map, goal, factor, q, seen, dist, par, phase>>
(* lengths in 1/10 of a cell; up costs double *)
Step(u, v) == IF u[3] # v[3] THEN (IF v[3] > u[3] THEN 20 ELSE 10) ELSE IF u[1] # v[1] /\ u[2] # v[2] THEN 14 ELSE 10
Edge(u, v) == Step(u, v) + (IF map[v] = "risky" THEN 9 ELSE 0)
Heur(v) == LET x == Abs(v[1] - goal[1]) y == Abs(v[2] - goal[2]) z == goal[3] - v[3] IN
           (10 * (x + y) - 6 * Min2(x, y) + (IF z > 0 THEN 20 * z ELSE -10 * z)) * factor
Free(v) == map[v] # "blocked"
Init == /\ map = [c \in Cs |-> "free"] /\ goal = S0 /\ factor = 1 /\ q = {} /\ seen = {} /\ phase = "choose"
        /\ dist = [c \in Cs |-> Far] /\ par = [c \in Cs |-> None]
Choose == /\ phase = "choose"
          /\ goal' \in Goals /\ factor' \in Factors
          /\ map' \in {m \in [Cs -> {"free", "risky", "blocked"}] : m[S0] = "free"}
          /\ q' = {<<S0, 0>>} /\ dist' = [dist EXCEPT ![S0] = 0] /\ phase' = "search" /\ UNCHANGED <<seen, par>>
Best == {x \in q : \A y \in q : x[2] <= y[2]}
Pop == /\ phase = "search"
       /\ IF q = {} THEN phase' = "failed" /\ UNCHANGED <<map, goal, factor, q, seen, dist, par>>
          ELSE \E x \in Best : LET u == x[1] IN
               IF u \in seen THEN q' = q \ {x} /\ UNCHANGED <<map, goal, factor, seen, dist, par, phase>>
               ELSE /\ seen' = seen \cup {u} /\ UNCHANGED <<map, goal, factor>>
                    /\ IF u = goal THEN phase' = "found" /\ q' = q \ {x} /\ UNCHANGED <<dist, par>>
                       ELSE LET better == {v \in Nb[u] : Free(v) /\ dist[u] + Edge(u, v) < dist[v]} IN
                            /\ dist' = [v \in Cs |-> IF v \in better THEN dist[u] + Edge(u, v) ELSE dist[v]]
                            /\ par' = [v \in Cs |-> IF v \in better THEN u ELSE par[v]]
                            /\ q' = (q \ {x}) \cup {<<v, dist[u] + Edge(u, v) + Heur(v)>> : v \in better}
                            /\ UNCHANGED phase
Next == Choose \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Pop)

Card == Cardinality(Cs)
RECURSIVE Reach(_, _)
Reach(F, R) == IF F = {} THEN R ELSE LET n == UNION {{v \in Nb[u] : Free(v)} : u \in F} \ R IN Reach(n, R \cup n)
RECURSIVE Relax(_)
Relax(d) == LET n == [v \in Cs |-> LET X == {d[v]} \cup {d[u] + Edge(u, v) : u \in {x \in Nb[v] : Free(v) /\ d[x] < Far}} IN CHOOSE x \in X : \A y \in X : x <= y]
            IN IF n = d THEN d ELSE Relax(n)
Shortest == Relax([v \in Cs |-> IF v = S0 THEN 0 ELSE Far])
RECURSIVE Back(_, _)
Back(p, n) == IF p[1] = S0 \/ n = 0 THEN p ELSE Back(<<par[p[1]]>> \o p, n - 1)
Path == Back(<<goal>>, Card)
Length(p) == LET F[i \in 1..Len(p)] == IF i = 1 THEN 0 ELSE F[i - 1] + Edge(p[i - 1], p[i]) IN F[Len(p)]

(* the parents always form a tree over legal edges *)
Tree == \A v \in Cs : dist[v] < Far => LET p == Back(<<v>>, Card) IN p[1] = S0 /\ \A i \in 2..Len(p) : Free(p[i]) /\ p[i] \in Nb[p[i - 1]]
(* the value of a cell is never less than the cost of the way back *)
Values == \A v \in Cs : dist[v] < Far => Length(Back(<<v>>, Card)) <= dist[v]
Answer == /\ phase = "found" => Path[1] = S0 /\ goal \in Reach({S0}, {S0}) /\ Length(Path) <= dist[goal]
          /\ phase = "failed" => goal \notin Reach({S0}, {S0})
Optimal == phase = "found" /\ factor = 1 => \E d \in {Shortest} : dist[goal] = d[goal] /\ Length(Path) = d[goal]
(* overestimating costs at most the factor *)
Bounded == phase = "found" => \E d \in {Shortest} : Length(Path) <= factor * d[goal]
(* every search ends *)
Ends == (phase = "search") ~> (phase # "search")
=============================================================================
