---------------------------- MODULE PathFollowMC ----------------------------
(* Every lattice path with up to 5 points, the setpoint advancing with time until the path expires. Also      *)
(* generates the paths and ages replayed into the real code.                                                 *)
EXTENDS PathFollow, Json
CONSTANT Emit
VARIABLES p, age, vel, was
vars == <<p, age, vel, was>>
Steps == {<<1000, 0, 0>>, <<0, 2000, 0>>, <<0, 0, -500>>, <<600, 800, 0>>}
Paths == LET start == <<0, 0, 3000>> IN
  LET RECURSIVE F(_)
      F(n) == IF n = 1 THEN {<<start>>} ELSE {<<Add3(q[1], d)>> \o q : q \in F(n - 1), d \in Steps}
  IN {<<>>} \cup F(1) \cup F(2) \cup F(3) \cup F(4) \cup F(5)
Init == p \in Paths /\ vel \in {0, 500, 2000} /\ age = 0 /\ was = TRUE
Best == CHOOSE r \in PathEval(p, age, vel) : \A q \in PathEval(p, age, vel) : r.ok \/ ~q.ok
Next == /\ age < 6000 /\ age' = age + 350 /\ was' = (\E r \in PathEval(p, age, vel) : r.ok) /\ UNCHANGED <<p, vel>>
Spec == Init /\ [][Next]_vars
EmitAll == IF Emit THEN PrintT(ToJson(<<[p |-> p, age |-> age, vel |-> vel]>>)) ELSE TRUE

OnSegment(x, k) == Abs(LenT(MulDiv3(Sub3(x, Scale3(p[k], 10)), 1, 1)) \div 10 + LenT(Sub3(x, Scale3(p[k + 1], 10))) \div 10 - Seg(p, k)) <= 40
OnPath == Len(p) >= 3 => \A r \in PathEval(p, age, vel) : r.ok => \E k \in 1..Len(p) - 2 : OnSegment(r.at, k)
StartsAtSecondLast == Len(p) >= 3 /\ age = 0 => \A r \in PathEval(p, age, vel) : r.ok /\ Len3(Sub3(r.at, Scale3(p[Len(p) - 1], 10))) <= 2
ExpiresOnce == Len(p) >= 3 /\ ~was => \A r \in PathEval(p, age, vel) : ~r.ok
TooShort == Len(p) < 2 => \A r \in PathEval(p, age, vel) : ~r.ok
Total == LET F[k \in 0..Len(p)] == IF k = 0 THEN 0 ELSE IF k > Len(p) - 2 THEN F[k - 1] ELSE F[k - 1] + Seg(p, k) IN F[Len(p)]
ExpiresWhenPassed == Len(p) >= 3 => LET d == MulDiv(age, vel, 100) IN
   \A r \in PathEval(p, age, vel) : (d < Total - 100 => r.ok) /\ (d > Total + 100 => ~r.ok)
ArcLength == \* the setpoint moves with the speed: never further than the distance travelled
   Len(p) >= 3 => \A r \in PathEval(p, age, vel) : Len3(Sub3(r.at, Scale3(p[Len(p) - 1], 10))) <= MulDiv(age, vel, 100) + 30
=============================================================================
