------------------------- MODULE TrajectorySimTrace -------------------------
EXTENDS TrajectorySim, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, lim, want, left
vars == <<l, st, lim, want, left>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ st = <<>> /\ lim = <<>> /\ want = <<>> /\ left = 0
TNew == Is("New") /\ UNCHANGED <<st, lim, want, left>>
(* one state per time step of the requested duration (microseconds) *)
Count(n, dur, step) == n * step >= dur - 2 /\ (n - 1) * step < dur + 2
TStart == /\ Is("start") /\ lim' = e.lim /\ st' = [p |-> e.p, v |-> e.v, a |-> e.a] /\ want' = Wanted(Unit(e.dir), e.lim) /\ left' = e.n
          /\ Chk(l, <<"every earlier state was checked", left>>, left = 0)
          /\ Chk(l, <<"number of states", e.n, e.dur, e.lim.step>>, Count(e.n, e.dur, e.lim.step))
NearVec(what, spec, obs, tol) == Chk(l, <<what, spec, obs, tol>>, \A i \in 1..3 : Abs(spec[i] - obs[i]) <= tol)
Top3(v) == Max2(Max2(Abs(v[1]), Abs(v[2])), Abs(v[3]))
(* tol(t): what the inaccuracy of the gains makes of the acceleration after t *)
TState ==
  /\ Is("state") /\ UNCHANGED <<lim, want>> /\ left' = left - 1
  /\ Chk(l, <<"the state is a number", e.p, e.v, e.a, e.t>>, IsFinite(e.t) /\ \A i \in 1..3 : IsFinite(e.p[i]) /\ IsFinite(e.v[i]) /\ IsFinite(e.a[i]))
  /\ Chk(l, <<"acceleration below its limit", e.a, TopAcc(lim)>>, LenT(e.a) <= 10 * (TopAcc(lim) + 6))
  /\ Chk(l, <<"jerk below its limit", e.a, st.a, e.t>>, LenT(Sub3(e.a, st.a)) <= 10 * (MulDiv(lim.jerk, e.t, 1000000) + 5))
  /\ Chk(l, <<"time goes on by at most one step", e.t>>, e.t >= 0 /\ e.t <= lim.step + 2)
  /\ \E m \in {Moved(st, e.a, e.t)} :
       /\ NearVec("position", m.p, e.p, 4 + Top3(e.p) \div 500000)
       /\ NearVec("velocity", m.v, e.v, 4)
  /\ \E g \in {Gain(want, lim)} : \E d \in {Damp(g)} :
     \E j \in {Jerk(st, want, g, d, lim)} :
     \E tol \in {8 + MulDiv(Min2(lim.jerk, Top3(Pull(st, want, g)) + Top3(Brake(st, d))) \div 150 + MulDiv(g, 6 + Top3(want) \div 12000, 1000) + d \div 5000, e.t, 1000000)} :
       Chk(l, <<"the jerk steers for the commanded velocity", want, g, d, j, Steps(st, j, lim, tol), e.a, e.t, tol>>,
           \E s \in Steps(st, j, lim, tol) : /\ Abs(s.t - e.t) <= 3 + MulDiv(tol, 1000000, lim.jerk) \/ (s.a = st.a /\ MulDiv(Len3(j), e.t, 1000000) <= tol)
                                             /\ \A i \in 1..3 : Abs(After(st, IF s.a = st.a /\ s.t = lim.step THEN <<0, 0, 0>> ELSE j, e.t)[i] - e.a[i]) <= tol)
  /\ st' = [p |-> e.p, v |-> e.v, a |-> e.a]
Next == TNew \/ TStart \/ TState
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
