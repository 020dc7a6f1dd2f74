------------------------------ MODULE MemoryMC ------------------------------
(* Eight directions around the vehicle; a camera sees three of them. Each update brings dense or sparse       *)
(* clouds in some seen directions. Also generates the histories replayed into the real code.                   *)
EXTENDS Memory, Json
CONSTANTS Emit, MaxSteps, Dirs
MaxAge == 4
Min == 2
VARIABLES mem,      \* direction -> [p, age] or None
          yaw, n, hist
vars == <<mem, yaw, n, hist>>
None == [p |-> 0, age |-> -1]
SeenDir(d, y) == LET k == Cardinality(Dirs) IN (d - y) % k \in {0, 1, k - 1}
Old == {[c |-> d, p |-> mem[d].p, age |-> mem[d].age, near |-> TRUE, seen |-> SeenDir(d, yaw)] : d \in {x \in Dirs : mem[x] # None}}
Init == mem = [d \in Dirs |-> None] /\ yaw = 0 /\ n = 0 /\ hist = <<>>
(* the update at heading y with these dense and sparse directions, dt time units after the previous one; the clouds may reach beyond the view *)
Update(y, dense, sparse, dt) ==
  /\ n < MaxSteps
  /\ yaw' = y /\ n' = n + 1 /\ hist' = Append(hist, [y |-> y, dense |-> dense, sparse |-> sparse, dt |-> dt])
  /\ LET fresh == {[c |-> d, p |-> 2 * n + k] : d \in dense, k \in {1, 2}} \cup {[c |-> d, p |-> 2 * n + 1] : d \in sparse}
         old == {[o EXCEPT !.seen = SeenDir(o.c, y)] : o \in Old} IN
     mem' = [d \in Dirs |-> IF d \in Filled(fresh, old, Min, MaxAge) THEN CHOOSE a \in Allowed(fresh, old, Min, MaxAge, dt, d) : TRUE ELSE None]
Next == \E y \in Dirs, dt \in {1, 3} : \E dense \in SUBSET {d \in Dirs : SeenDir(d, y)} : \E sparse \in SUBSET ({y} \ dense) :
        Update(y, dense, sparse, dt)
Spec == Init /\ [][Next]_vars
View == <<mem, yaw, n>>
Emitted == Emit
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE

NeverStale == \A d \in Dirs : mem[d] # None => mem[d].age >= 0 /\ mem[d].age < MaxAge + 3
SeenIsFresh == \A d \in Dirs : mem[d] # None /\ SeenDir(d, yaw) => mem[d].age = 0
(* an obstacle out of sight is kept, ageing, until it is too old *)
Persistent == [][ \A d \in Dirs : mem[d] # None /\ ~SeenDir(d, yaw') /\ mem[d].age < MaxAge => mem'[d] # None /\ (mem'[d].p = mem[d].p => mem'[d].age > mem[d].age) ]_vars
(* nothing appears that was not measured in this update or remembered before *)
NoGhosts == [][ \A d \in Dirs : mem'[d] # None => mem'[d].age = 0 \/ (mem[d] # None /\ mem'[d].p = mem[d].p) ]_vars
Forgotten == [][ \A d \in Dirs : mem[d] # None /\ mem[d].age >= MaxAge /\ mem'[d] # None => mem'[d].age = 0 ]_vars
=============================================================================
