------------------------------ MODULE CostsTrace ------------------------------
EXTENDS Costs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, px, par
vars == <<l, px, par>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ px = [cp |-> 0] /\ par = [min |-> 0]
TNew == Is("New") /\ px' = [cp |-> 0] /\ par' = [min |-> 0]
TApply == Is("apply") /\ par' = e.par /\ UNCHANGED px
TPx4 == Is("px4") /\ px' = [cp |-> e.cp, cruise |-> e.cruise, acc |-> e.acc, jerk |-> e.jerk, mission |-> e.mission] /\ UNCHANGED par
Dist(goal, pos) == LenT(Sub3(goal, pos))
TCost == /\ Is("cost") /\ UNCHANGED <<px, par>>
         /\ \E g \in {HistDir(Sub3(e.goal, e.pos))} : \E ln \in {HistDir(Sub3(e.line, e.pos))} : \E D \in {Dist(e.goal, e.pos)} :
            LET o == OtherCost(e.e, e.z, g, ln, D, e.vel, e.facing, e.par) d == DistanceCost(e.d, e.par.obst) IN
            /\ ChkNear(l, "obstacle cost", d, e.dist, 8)
            /\ ChkNear(l, "remaining cost", o, e.other, Slack(e.vel, D, e.par) + o \div 400)
HistSet(h) == {[e |-> h[i][1], z |-> h[i][2], d |-> h[i][3]] : i \in 1..Len(h)}
Flat(m) == [n \in 1..Rows * Cols |-> m[(n - 1) \div Cols + 1][((n - 1) % Cols) + 1]]
(* the two halves of the cost matrix *)
OtherMatrix(pos, goal, line, vel, facing, p) ==
  LET g == HistDir(Sub3(goal, pos)) ln == HistDir(Sub3(line, pos)) D == Dist(goal, pos) IN
  LET raw == TLCEval([n \in 1..Rows * Cols |-> LET ei == (n - 1) \div Cols zi == (n - 1) % Cols IN
               IF zi % StepOf(ei) # 0 THEN 0 ELSE LET q == OfBin(ei, zi, Res) IN OtherCost(q[1], q[2], g, ln, D, vel, facing, p)]) IN raw
Interpolated(raw) == [n \in 1..Rows * Cols |-> LET ei == (n - 1) \div Cols zi == (n - 1) % Cols f(z) == raw[At(Cols, ei, z)] IN Sampled(StepOf(ei), zi, f)]
DistMatrix(h, p) == [n \in 1..Rows * Cols |-> LET ei == (n - 1) \div Cols zi == (n - 1) % Cols s == {q \in h : q.e = ei /\ q.z = zi} IN
                       IF s = {} THEN 0 ELSE DistanceCost((CHOOSE q \in s : TRUE).d, p.obst)]
MaxOfSeq(s) == FoldFunction(Max2, 0, s)
(* both matrices for a histogram; check(other, smoothed) *)
WithMatrices(h, pos, goal, line, vel, p, check(_, _)) ==
  \E g \in {HistDir(Sub3(goal, pos))} :
  \E raw \in {OtherMatrix(pos, goal, line, vel, Facing(h, g, p), p)} :
  \E other \in {Interpolated(raw)} :
  \E d0 \in {DistMatrix(h, p)} :
  \E d1 \in {Interpolated(d0)} :
  \E d2 \in {SmoothCols(d1, Rows, Cols, Radius(p))} :
  \E d3 \in {SmoothRows(d2, Rows, Cols, Radius(p))} : check(other, d3)
RowOf(n) == (n - 1) \div Cols
ColOf(n) == (n - 1) % Cols
ImageOf(n) == (Rows - 1 - RowOf(n)) * Cols + ColOf(n) + 1             \* the image starts with the highest elevation
ImagesOk(other, dist, red, green, blue) ==
  \E m \in {Max2(MaxOfSeq(other), MaxOfSeq(dist)) \div 1000 + 1} :
    \A n \in 1..Rows * Cols : /\ ChkNear(l, <<"obstacle colour", RowOf(n), ColOf(n)>>, (255 * (dist[n] \div 1000)) \div m, red[ImageOf(n)], 3 + 600 \div m)
                              /\ ChkNear(l, <<"cost colour", RowOf(n), ColOf(n)>>, (255 * (other[n] \div 1000)) \div m, green[ImageOf(n)], 3 + 600 \div m)
TMatrix == /\ Is("matrix") /\ UNCHANGED <<px, par>>
           /\ \E s \in {Slack(e.vel, Dist(e.goal, e.pos), e.par)} : \E m \in {Flat(e.m)} :
              WithMatrices(HistSet(e.hist), e.pos, e.goal, e.line, e.vel, e.par, LAMBDA other, dist :
                /\ \A n \in 1..Rows * Cols : LET x == other[n] + dist[n] IN
                     ChkNear(l, <<"cost", RowOf(n), ColOf(n)>>, RDiv(x, 10), m[n], s \div 10 + 3 + other[n] \div 4000 + dist[n] \div 4000)
                /\ ImagesOk(other, dist, e.red, e.green, e.blue))
(* the planner's own cost image shows which point it is pulled to and that it uses its own parameters *)
TRun == /\ Is("run") /\ UNCHANGED <<px, par>>
        /\ IF Len(e.hist) = 0 THEN Chk(l, "no cost image without obstacles", \A n \in 1..Rows * Cols : e.red[n] = 0 /\ e.green[n] = 0)
           ELSE WithMatrices(HistSet(e.hist), e.pos, e.goal, LinePoint(e.pos, e.goal, e.prev, px.cruise), e.vel, par,
                             LAMBDA other, dist : ImagesOk(other, dist, e.red, e.green, e.blue))
TSmooth == /\ Is("smooth") /\ UNCHANGED <<px, par>>
           /\ LET R == Len(e.in) C == Len(e.in[1]) IN
              \E m \in {[n \in 1..R * C |-> 100 * e.in[(n - 1) \div C + 1][((n - 1) % C) + 1]]} :
              \E a \in {SmoothCols(m, R, C, e.r)} : \E b \in {SmoothRows(a, R, C, e.r)} :
              \A n \in 1..R * C : ChkNear(l, <<"smoothed", (n - 1) \div C, (n - 1) % C>>, b[n], 10 * e.out[(n - 1) \div C + 1][((n - 1) % C) + 1], 15 + b[n] \div 10000)
TPad == /\ Is("pad") /\ UNCHANGED <<px, par>>
        /\ LET R == Len(e.in) C == Len(e.in[1]) IN
           \E m \in {[n \in 1..R * C |-> e.in[(n - 1) \div C + 1][((n - 1) % C) + 1]]} :
             /\ ChkEq(l, "padded size", <<R + 2 * e.r, C + 2 * e.r>>, <<Len(e.out), Len(e.out[1])>>)
             /\ \A i \in 1..Len(e.out), k \in 1..Len(e.out[1]) : ChkEq(l, <<"padded", i, k>>, Padded(m, R, C, i - 1 - e.r, k - 1 - e.r), e.out[i][k])
BinOf(c) == At(Cols, (c[1] + 9000 - 300) \div 600, (c[2] + 18000 - 300) \div 600)
BestOk(m, n, c) ==
  \E bins \in {[i \in 1..Len(c) |-> BinOf(c[i])]} :
    /\ ChkEq(l, "number of candidates", Min2(n, Rows * Cols), Len(c))
    /\ \A i \in 1..Len(c) : ChkEq(l, <<"centre of a bin", i>>, OfBin((bins[i] - 1) \div Cols, (bins[i] - 1) % Cols, Res), <<c[i][1], c[i][2]>>)
    /\ ChkEq(l, "different bins", Len(c), Cardinality({bins[i] : i \in 1..Len(c)}))
    /\ \A i \in 1..Len(c) : ChkEq(l, <<"cost of candidate", i>>, m[bins[i]], c[i][3])
    /\ \A i \in 1..Len(c) - 1 : Chk(l, <<"increasing cost", i>>, c[i][3] <= c[i + 1][3])
    /\ (Len(c) > 0 => Chk(l, "no cheaper bin left out", {k \in 1..Rows * Cols : m[k] < c[Len(c)][3]} \subseteq {bins[i] : i \in 1..Len(c)}))
TBest == Is("best") /\ (\E m \in {Flat(e.m)} : BestOk(m, e.n, e.c)) /\ UNCHANGED <<px, par>>
TCruise == /\ Is("cruise") /\ UNCHANGED <<px, par>>
           /\ \E want \in {IF px.mission # NaN THEN px.mission ELSE px.cruise} : \E left \in {Stoppable(e.v, px.acc, px.jerk, e.max)} :
              \E tol \in {3 + px.acc \div 100 + (2 * MulDiv(px.acc, px.acc, px.jerk) + 2 * e.v) \div 1000} :     \* one mm/s of rounding
              /\ Chk(l, <<"not above the desired speed", want, e.v>>, e.v <= want)
              /\ Chk(l, <<"can stop within the range", e.v, left>>, left <= tol)
              /\ Chk(l, <<"not slower than necessary", want, e.v, left>>, e.v >= want - 1 \/ left >= -tol)
Next == TNew \/ TApply \/ TPx4 \/ TCost \/ TMatrix \/ TRun \/ TSmooth \/ TPad \/ TBest \/ TCruise
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
