----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, lim
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
N0 == NewGrid(1000, 1000)
Init == l = 1 /\ g = <<N0, N0>> /\ lim = <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
TNew == Is("New") /\ g' = <<N0, N0>> /\ lim' = <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
K == e.k
TMake == (Is("make") \/ Is("resize")) /\ g' = [g EXCEPT ![K] = NewGrid(e.size, e.cell)] /\ UNCHANGED lim
TReset == Is("reset") /\ g' = [g EXCEPT ![K] = ResetGrid(@)] /\ UNCHANGED lim
C == <<e.x, e.y>>
TMean == Is("mean") /\ g' = [g EXCEPT ![K].mean = Put(@, C, e.v)] /\ UNCHANGED lim
TVar == Is("var") /\ g' = [g EXCEPT ![K].var = Put(@, C, e.v)] /\ UNCHANGED lim
TCnt == Is("cnt") /\ g' = [g EXCEPT ![K].cnt = Put(@, C, e.v)] /\ UNCHANGED lim
TInc == Is("inc") /\ g' = [g EXCEPT ![K].cnt = Put(@, C, At(@, C) + 1)] /\ UNCHANGED lim
TLand == Is("land") /\ g' = [g EXCEPT ![K].land = Put(@, C, e.v)] /\ UNCHANGED lim
TLimits == Is("limits") /\ lim' = [lim EXCEPT ![K] = Limits(g[K], e.x, e.y)] /\ UNCHANGED g
           /\ ChkEq(l, "grid limits", lim'[K], e.lim)
TCombine == Is("combine") /\ g' = [g EXCEPT ![K] = Combine(@, g[3 - K], e.w, 4)] /\ UNCHANGED lim
ToFun(s) == [c \in {<<s[i][1], s[i][2]>> : i \in 1..Len(s)} |-> LET i == CHOOSE j \in 1..Len(s) : <<s[j][1], s[j][2]>> = c IN s[i][3]]
Same(tag, f, s, tol) == LET h == ToFun(s) IN
   \A c \in DOMAIN f \union DOMAIN h : ChkNear(l, <<tag, c>>, At(f, c), At(h, c), tol)
TDump == /\ Is("dump") /\ UNCHANGED <<g, lim>>
         /\ ChkEq(l, "rows and columns", g[K].n, e.n) /\ ChkEq(l, "matrix shape", <<g[K].n, g[K].n, g[K].n, g[K].n>>, e.shape)
         /\ ChkEq(l, "sizes", <<g[K].size, g[K].cell>>, <<e.size, e.cell>>)
         /\ Same("mean", g[K].mean, e.mean, 3) /\ Same("variance", g[K].var, e.var, 3)
         /\ Same("count", g[K].cnt, e.cnt, 0) /\ Same("landability", g[K].land, e.land, 0)
         /\ ChkEq(l, "limits kept", lim[K], e.lim)
Next == TNew \/ TMake \/ TReset \/ TMean \/ TVar \/ TCnt \/ TInc \/ TLand \/ TLimits \/ TCombine \/ TDump
Spec == Init /\ [][Next]_<<l, g, lim>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
