------------------------------- MODULE GridMC -------------------------------
EXTENDS Grid, Json
CONSTANTS Emit, MaxLen
VARIABLES g, hist
H(r) == hist' = Append(hist, r)
Cells == {<<0, 0>>, <<1, 0>>, <<1, 1>>}
Init == g = <<NewGrid(2000, 1000), NewGrid(2000, 1000)>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E k \in 1..2 :
           \/ \E sz \in {1500, 2000} : g' = [g EXCEPT ![k] = NewGrid(sz, 1000)] /\ H([op |-> "resize", k |-> k, size |-> sz, cell |-> 1000])
           \/ g' = [g EXCEPT ![k] = ResetGrid(@)] /\ H([op |-> "reset", k |-> k])
           \/ \E c \in Cells : g' = [g EXCEPT ![k].mean = Put(@, c, 1024)] /\ H([op |-> "mean", k |-> k, x |-> c[1], y |-> c[2], v |-> 1024])
           \/ \E c \in Cells : g' = [g EXCEPT ![k].var = Put(@, c, 4096)] /\ H([op |-> "var", k |-> k, x |-> c[1], y |-> c[2], v |-> 4096])
           \/ \E c \in Cells : g' = [g EXCEPT ![k].cnt = Put(@, c, At(@, c) + 1)] /\ H([op |-> "inc", k |-> k, x |-> c[1], y |-> c[2]])
           \/ \E w \in {0, 1, 4} : g' = [g EXCEPT ![k] = Combine(@, g[3 - k], w, 4)] /\ H([op |-> "combine", k |-> k, w |-> w])
Spec == Init /\ [][Next]_<<g, hist>>
View == <<g, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE
Square == \A k \in 1..2 : g[k].n = 2 /\ DOMAIN g[k].mean \subseteq (0..1) \X (0..1)
BlendBounded == \A w \in 0..4 : LET h == Combine(g[1], g[2], w, 4) IN \A c \in Cells :
    /\ At(h.mean, c) >= Min2(At(g[1].mean, c), At(g[2].mean, c)) /\ At(h.mean, c) <= Max2(At(g[1].mean, c), At(g[2].mean, c))
    /\ h.cnt = g[1].cnt /\ h.land = g[1].land
BlendEnds == Combine(g[1], g[2], 0, 4) = g[1] /\ Combine(g[1], g[2], 4, 4).mean = g[2].mean
=============================================================================
