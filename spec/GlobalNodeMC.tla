---------------------------- MODULE GlobalNodeMC ----------------------------
(* The node on a line of cells, with any outcome of planning, any goals and any movement: goals are visited in order. *)
EXTENDS GlobalNode, TLC
CONSTANTS N, MaxGoals
S == 2
Cell(x) == <<x, 0, 1>>
Spot(x) == Centre(Cell(x), S)
VARIABLES n, x, asked, log
vars == <<n, x, asked, log>>
G(c, k) == [c |-> Cell(c), r |-> 1000, temp |-> FALSE]
Init == /\ n = [goal |-> G(0, 0), way |-> <<>>, blocked |-> FALSE, planned |-> <<>>, cur |-> [p |-> Spot(0), y |-> 0], rest |-> <<>>]
        /\ x = 0 /\ asked = 0 /\ log = "start"
(* goals handed over in advance *)
Sites == {0, 2, N}
View == <<n, x, asked>>
Queue == /\ asked < MaxGoals /\ \E c \in Sites : n' = [n EXCEPT !.way = Append(@, G(c, asked + 1))]
         /\ asked' = asked + 1 /\ log' = "queue" /\ UNCHANGED <<x>>
Click == /\ asked < MaxGoals /\ \E c \in Sites : n' = NewGoal(n, G(c, asked + 1))
         /\ asked' = asked + 1 /\ log' = "click" /\ UNCHANGED <<x>>
Straight(a, b) == LET d == Abs(b - a) IN <<Cell(a)>> \o [i \in 1..(d + 1) |-> Cell(IF b >= a THEN a + i - 1 ELSE a - i + 1)]
Outcomes(m) == {[found |-> FALSE, blocked |-> b, path |-> <<>>, over |-> 20000] : b \in {m.blocked, TRUE}}
               \cup {[found |-> TRUE, blocked |-> FALSE, path |-> Straight(x, m.goal.c[1]), over |-> f] : f \in {10200, 20000}}
Cycle == /\ log' = "cycle" /\ UNCHANGED <<x, asked>>
         /\ \E m \in {Before(n, Spot(x), S)} : \E o \in Outcomes(m) : \E k \in {Plan(m, o)} : n' = Follow(k, k.planned, 0, S)
Move == /\ x' \in {x - 1, x + 1} \cap (0..N) /\ log' = "move" /\ UNCHANGED <<asked>>
        /\ n' = IF n.rest # <<>> /\ Gap(n, Spot(x')) < 10000 THEN TakeNext(n) ELSE n
Next == Queue \/ Click \/ Cycle \/ Move
Spec == Init /\ [][Next]_vars
Small == Len(n.way) <= MaxGoals + 3
(* intermediate goals are followed by the goal they lead to, unless a new goal replaced them *)
TempHasSuccessor == n.goal.temp => n.way # <<>>
TempsLead == \A i \in 1..Len(n.way) : n.way[i].temp => i < Len(n.way)
(* the halves of a path get short: never more intermediate goals than halvings *)
Halvings == Cardinality({i \in 1..Len(n.way) : n.way[i].temp}) <= 2 + asked
Real(s) == SelectSeq(s, LAMBDA g : ~g.temp)
(* only a goal which was reached or blocked is left, only the first of the waiting goals becomes the next one; a goal which is neither reached
   nor blocked stays the current one or waits in front of the others *)
InOrder == [][log' = "cycle" =>
               LET a == Real(<<n.goal>> \o n.way) b == Real(<<n'.goal>> \o n'.way) IN
               IF ~Advances(n, Spot(x), S) THEN a = b
               ELSE IF n.way = <<>> THEN b = (IF n.blocked THEN <<[c |-> Cell(x), r |-> 1000, temp |-> FALSE]>> ELSE a)
               ELSE b = Real(n.way)]_vars
NewGoalsWin == [][log' = "click" => ~n'.goal.temp /\ ~n'.blocked /\ n'.way = n.way]_vars
(* the vehicle flies to the point after the start of the path, and stays when there is none *)
Flown == [][log' = "cycle" /\ n'.planned # <<>> => n'.cur.p = Centre(n'.planned[Min2(2, Len(n'.planned))], S)]_vars
(* a setpoint is on the way to the current point, at most one step away *)
Step == \A v \in {5000, 10000, 25000} : \E sp \in {Setpoint(n, Spot(x), v)} :
          LET y == [k \in Axis |-> 1250 * Spot(x)[k]] d == Abs(sp[1] - y[1]) IN
          /\ sp[2] = y[2] + (n.cur.p[2] - Spot(x)[2]) * 1250 /\ d <= Max2(v, 10000) + 2
          /\ (n.cur.p[1] >= Spot(x)[1] => sp[1] >= y[1]) /\ (n.cur.p[1] <= Spot(x)[1] => sp[1] <= y[1])
=============================================================================
