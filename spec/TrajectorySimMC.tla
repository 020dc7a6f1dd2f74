--------------------------- MODULE TrajectorySimMC ---------------------------
EXTENDS TrajectorySim, TLC
CONSTANTS N
VARIABLES st, lim, want, n, clock
vars == <<st, lim, want, n, clock>>
V(x, y, z) == <<10000 * x, 10000 * y, 10000 * z>>
Lims == {[up |-> 30000, down |-> -10000, xy |-> 50000, acc |-> ac, jerk |-> j, step |-> dt] : ac \in {20000, 50000}, j \in {10000, 80000}, dt \in {100000, 500000}}
Starts == {[p |-> V(0, 0, 0), v |-> v, a |-> a] : v \in {V(0, 0, 0), V(4, 0, 0), V(-3, 3, 1)}, a \in {V(0, 0, 0), V(0, 1, 0), V(-1, 0, 1)}}
Dirs == {<<x, y, z>> : x \in {-1, 0, 1}, y \in {0, 1}, z \in {-1, 0, 1}}
Init == /\ st \in Starts /\ lim \in Lims /\ n = 0 /\ clock = 0 /\ \E d \in Dirs : want = Wanted(Unit(Scale3(d, 1000)), lim)
        /\ LenT(st.a) <= 10 * TopAcc(lim)
J == LET g == Gain(want, lim) IN Jerk(st, want, g, Damp(g), lim)
Step == /\ n < N /\ n' = n + 1 /\ UNCHANGED <<lim, want>>
        /\ \E j \in {J} : \E s \in Steps(st, j, lim, 0) : st' = Moved(st, s.a, s.t) /\ clock' = clock + s.t
Spec == Init /\ [][Step]_vars
AccBounded == LenT(st.a) <= 10 * TopAcc(lim) + 60
WantBounded == LenXY(want) <= lim.xy + 10 /\ want[3] <= lim.up /\ want[3] >= lim.down
JerkBounded == [][LenT(Sub3(st'.a, st.a)) <= 10 * (MulDiv(lim.jerk, clock' - clock, 1000000) + 12)]_vars
Forward == [][clock' > clock /\ clock' - clock <= lim.step]_vars
(* never stuck *)
Enabled == n < N => \E j \in {J} : Steps(st, j, lim, 0) # {}
(* at the commanded velocity without acceleration nothing changes *)
Rest == [][(st.v = want /\ st.a = <<0, 0, 0>>) => st'.v = want /\ st'.a = <<0, 0, 0>>]_vars
(* where the acceleration is not at its limit, the jerk reduces the error of the velocity as soon as there is no acceleration *)
Steers == st.a = <<0, 0, 0>> /\ st.v # want => \E d \in {Sub3(want, st.v)} : \E j \in {J} : \A i \in 1..3 : j[i] = 0 \/ (j[i] > 0) = (d[i] > 0)
=============================================================================
