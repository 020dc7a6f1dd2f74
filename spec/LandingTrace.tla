---------------------------- MODULE LandingTrace ----------------------------
EXTENDS Landing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ s = InitLanding
TNew == Is("New") /\ s' = InitLanding
TCfg == Is("cfg") /\ s' = Configure(s, [npts |-> e.npts, std |-> e.std, smooth |-> e.smooth, mdiff |-> e.mdiff,
            maxdiff |-> e.maxdiff, minland |-> e.minland, size |-> e.size, cell |-> e.cell, alpha |-> e.alpha])
TPose == Is("pose") /\ s' = SetPose(s, e.p)
Pts == [i \in 1..Len(e.cloud) |-> <<e.cloud[i][1], e.cloud[i][2], e.cloud[i][3], e.cloud[i][4] = 1>>]
Obs(t) ==
   LET n == t.cur.n k(c) == c[1] * n + c[2] + 1 L == Landable(t) D == Idx(n) IN
   /\ ChkEq(l, "rows", <<n, n * n, n * n>>, <<e.n, Len(e.mean), Len(e.pmean)>>)
   /\ ChkEq(l, "grid geometry", <<t.cur.size, t.cur.cell>>, e.geo)
   /\ \A c \in D : /\ ChkEq(l, <<"points in cell", c>>, t.cur.cnt[c], e.cnt[k(c)])
                   /\ ChkNear(l, <<"mean height", c>>, t.cur.mean[c], e.mean[k(c)], 60)
                   /\ ChkNear(l, <<"variance", c>>, t.cur.var[c], e.var[k(c)], 10 + t.cur.var[c] \div 2000)
                   /\ ChkNear(l, <<"mean height of the preceding cycle", c>>, t.prev.mean[c], e.pmean[k(c)], 60)
                   /\ ChkEq(l, <<"points of the preceding cycle", c>>, t.prev.cnt[c], e.pcnt[k(c)])
                   /\ Chk(l, <<"landability", c, "specified", L[c], "observed", e.land[k(c)], "var", t.cur.var[c]>>,
                          /\ e.land[k(c)] = 1 => L[c][2]
                          /\ e.land[k(c)] = 0 => ~L[c][1]
                          /\ e.land[k(c)] \in {0, 1})
   /\ ChkEq(l, "own cell", t.pidx, e.pidx)
TRun == Is("run") /\ LET t == RunCloud(s, Pts) IN Obs(t) /\ s' = t
TRaw == Is("raw") /\ LET t == RunRaw(s, [size |-> e.rsize, cell |-> e.rcell, mean |-> e.rmean, std |-> e.rstd, cnt |-> e.rcnt])
                     IN Obs(t) /\ s' = t
Next == TNew \/ TCfg \/ TPose \/ TRun \/ TRaw
Spec == Init /\ [][Next]_<<l, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
