----------------------------- MODULE LandingMC -----------------------------
EXTENDS Landing, Json
CONSTANTS Emit, MaxLen
VARIABLES s, hist
H(r) == hist' = Append(hist, r)
C0 == [npts |-> 2, std |-> 100, smooth |-> 0, mdiff |-> 300, maxdiff |-> 4, minland |-> 0, size |-> 2000, cell |-> 1000, alpha |-> 50]
Cfgs == {C0, [C0 EXCEPT !.smooth = 1], [C0 EXCEPT !.smooth = 1, !.minland = 2, !.maxdiff = 6, !.alpha = 0], [C0 EXCEPT !.size = 1500, !.npts = 1, !.alpha = 100]}
P(x, y, z) == <<2 * x, 2 * y, z, FALSE>>
\* positions are multiples of 500; clouds around the origin: edges, borders, outside, broken points, and
\* points one representable number below the upper border of the grid
Up(k) == 2 * s.pos[k] + Resize(s).cur.size - 1
Clouds == { <<>>,
            <<P(-500, -500, 0), P(-500, -250, 100), P(250, 250, 1000)>>,
            <<P(0, 0, 500), P(0, 0, 500), P(0, 0, 510), P(-1, -1, 505), P(1000, 0, 7), P(-1000, 500, 7)>>,
            <<P(-500, 500, 400), P(-500, 500, 700), <<1000, 1000, 100, TRUE>>, <<Up(1), 0, 50, FALSE>>, <<Up(1), Up(2), 60, FALSE>>>> }
Raw1 == [size |-> 2000, cell |-> 1000, mean |-> <<100000, 200000, 0, 1500000>>, std |-> <<10, 250, 0, 20>>, cnt |-> <<3, 4, 0, 1>>]
Raw2 == [size |-> 3000, cell |-> 1000, mean |-> <<0, 0, 0, 100000, 200000, 300000, 0, 500000, 0>>, std |-> <<0, 0, 0, 20, 20, 20, 300, 0, 0>>, cnt |-> <<9, 0, 2, 2, 2, 3, 9, 9, 1>>]
Init == s = InitLanding /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E c \in Cfgs : s' = Configure(s, c) /\ H([op |-> "cfg", c |-> c])
           \/ hist # <<>> /\ \E c \in Cfgs : c # s.cfg /\ s' = Configure(s, c) /\ H([op |-> "cfg", c |-> c])
           \/ hist # <<>> /\ \E p \in {<<0, 0>>, <<500, -500>>} : p # s.pos /\ s' = SetPose(s, p) /\ H([op |-> "pose", p |-> p])
           \/ hist # <<>> /\ \E c \in Clouds : s' = RunCloud(s, c) /\ H([op |-> "run", cloud |-> c])
           \/ hist # <<>> /\ \E r \in {Raw1, Raw2} : s' = RunRaw(s, r) /\ H([op |-> "raw", r |-> r])
Spec == Init /\ [][Next]_<<s, hist>>
View == <<s, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE
D == Idx(s.cur.n)
(* landable cells are supported by enough points of this cycle and flat enough *)
Supported == \A c \in D : Landable(s)[c][2] /\ s.pad <= 0 => s.cur.cnt[c] >= s.cfg.npts /\ s.cur.var[c] <= s.cfg.std * s.cfg.std + VTol(s.cfg.std)
Interval == \A c \in D : Landable(s)[c][1] => Landable(s)[c][2]
SameShape == s.prev.n = s.cur.n /\ s.prev.size = s.cur.size /\ s.prev.cell = s.cur.cell
VarNonNegative == \A c \in D : s.cur.var[c] >= 0 /\ s.cur.cnt[c] >= 0
(* smoothing only looks at land in the neighbourhood: no landable cell without a flat one near it *)
SmoothSupported == s.pad > 0 => \A c \in D : Landable(s)[c][2] => \E d \in Window(s, c) \cap D : FlatHi(s, d)
(* blending keeps the mean between old and new *)
Blended == [][ \A c \in Clouds : s' = RunCloud(s, c) =>
                LET t == Resize(s) new == Stats([t EXCEPT !.prev = t.cur], c) IN \A d \in Idx(new.n) :
                    /\ s'.cur.mean[d] >= Min2(new.mean[d], t.cur.mean[d]) - 100 /\ s'.cur.mean[d] <= Max2(new.mean[d], t.cur.mean[d]) + 100
                    /\ s'.cur.cnt[d] = new.cnt[d] ]_s
(* every point inside the grid is counted in exactly one cell *)
Counted == \A c \in Clouds : LET g == Stats(s, c) IN
             SumOver(Idx(g.n), LAMBDA d : g.cnt[d]) = Cardinality({i \in 1..Len(c) : InGrid(s, c[i])})
=============================================================================
