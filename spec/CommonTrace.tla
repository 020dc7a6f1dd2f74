---------------------------- MODULE CommonTrace ----------------------------
EXTENDS Common, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1
TNew == Is("New")
V3(tag, expected, got, tol) == \A i \in 1..3 : ChkNear(l, <<tag, i>>, expected[i], got[i], tol)
Diff(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Tol(r) == 3 + Abs(r) \div 2500

TH2C == Is("hist2cart") /\ V3("cartesian", HistToCart(e.e, e.z, e.r), Diff(e.c, e.o), Tol(e.r))
TF2C == Is("fcu2cart") /\ V3("cartesian", FcuToCart(e.e, e.z, e.r), Diff(e.c, e.o), Tol(e.r))
TC2H == Is("cart2hist") /\ V3("same ray", Diff(e.c, e.o), HistToCart(e.e, e.z, e.r), Tol(e.r))
        /\ Chk(l, "distance", e.r >= 0) /\ Chk(l, "elevation range", Abs(e.e) <= 9000) /\ Chk(l, "azimuth range", Abs(e.z) <= 18000)
TC2F == Is("cart2fcu") /\ LET c == FcuToCart(e.e, e.z, e.r) IN V3("same ray", Diff(e.c, e.o), <<c[1], c[2], -c[3]>>, Tol(e.r))
        /\ Chk(l, "distance", e.r >= 0) /\ Chk(l, "elevation range", Abs(e.e) <= 9000) /\ Chk(l, "azimuth range", e.z >= -18000 /\ e.z <= 18000)
TOfBin == Is("ofbin") /\ ChkEq(l, "representative direction", OfBin(e.ei, e.zi, e.res), <<e.e, e.z>>) /\ ChkEq(l, "radius", e.rin, e.r)
TToBin == Is("tobin") /\ ChkEq(l, "bin", ToBin(e.e, e.z, e.res), <<e.x, e.y>>)
TWrapPolar == Is("wrappolar") /\ ChkEq(l, "wrapped direction", WrapPolar(e.e, e.z), <<e.oe, e.oz>>) /\ ChkEq(l, "radius", 4500, e.r)
TWrap == Is("wrap180") /\ ChkEq(l, "wrapped angle", Wrap180(e.a), e.w)
TwoPi == 62832
Congruent(x, y, tol) == LET k == RDiv(x - y, TwoPi) IN Abs(x - y - RDiv(k * 628319, 10)) <= tol
TWrapPi == Is("wrappi") /\ Chk(l, "range", Abs(e.w) <= 31417) /\ Chk(l, <<"congruent", e.a, e.w>>, Congruent(e.a, e.w, 6))
TAngDiff == Is("angdiff") /\ ChkEq(l, "smallest rotation", Wrap180(e.a - e.b), e.d)
TIdxDiff == Is("idxdiff") /\ ChkEq(l, "angular distance", AngDist(e.a, e.b), e.d)
TNextYaw == Is("nextyaw") /\ LET d == Diff(e.v, e.u) n == Norm2(d[1], d[2]) IN
            /\ Chk(l, "range", Abs(e.yaw) <= 18000)
            /\ ChkNear(l, "along x", Mul4(n, CosD(e.yaw)), d[1], 5 + n \div 2000) /\ ChkNear(l, "along y", Mul4(n, SinD(e.yaw)), d[2], 5 + n \div 2000)
TAngVel == Is("angvel") /\ Chk(l, <<"half the remaining rotation", e.d, e.c, e.w>>, Congruent(2 * e.w, e.d - e.c, 8))
           /\ Chk(l, "shorter way", Abs(2 * e.w) <= 31420)
TQuat == Is("quat") /\ ChkEq(l, "roll-pitch-yaw composition", 1, e.same) /\ ChkNear(l, "pitch", e.p, e.op_, IF Abs(e.p) > 8900 THEN 5 ELSE 2)
         /\ (Abs(e.p) < 8900 => Chk(l, <<"yaw", e.y, e.oy>>, AngDist(e.y, e.oy) <= 2))
TPose == Is("pose") /\ V3("position", e.in, e.o, 0) /\ Chk(l, <<"yaw", e.y, e.oy>>, AngDist(e.y, e.oy) <= 2) /\ ChkNear(l, "pitch", 0, e.op_, 1)
Ned(v) == <<v[2], v[1], -v[3]>>
TFrames == Is("frames") /\ V3("north-east-down", Ned(e.v), e.ned, 0) /\ V3("east-north-up", Ned(e.v), e.enu, 0)
           /\ ChkEq(l, "yaw", <<9000 - e.y, 9000 - e.y, -e.y, -e.y>>, <<e.yned, e.yenu, e.pned, e.penu>>)
           /\ ChkNear(l, "yaw (rad)", 9000 - e.y, e.ynedr, 1) /\ ChkNear(l, "yaw (rad)", 9000 - e.y, e.yenur, 1)
Neg(v) == <<-v[1], -v[2], -v[3]>>
TOrient == /\ Is("orient")
           /\ V3("body x", Ned(e.enu[1]), e.ned[1], 3) /\ V3("body y", Neg(Ned(e.enu[2])), e.ned[2], 3) /\ V3("body z", Neg(Ned(e.enu[3])), e.ned[3], 3)
           /\ \A k \in 1..3 : V3("and back", e.enu[k], e.back[k], 3)
TDist == Is("dist2d") /\ ChkNear(l, "polar distance", Norm2(e.e1 - e.e2, e.z1 - e.z2), e.d, 3)
FinitePt(p) == \A i \in 1..3 : IsFinite(p[i])
TMaxima == /\ Is("maxima")
           /\ LET f == SelectSeq(e.in, FinitePt) S == ToSet(f) M == ToSet(e.max) IN
              /\ ChkEq(l, "remaining points", f, e.out) /\ ChkEq(l, "shape", <<Len(f), 1, TRUE>>, <<e.w, e.h, e.dense>>)
              /\ ChkEq(l, "frame", "cam", e.frame) /\ Chk(l, "extreme points are points of the cloud", M \subseteq S)
              /\ \A i \in 1..3 : S # {} => /\ ChkEq(l, <<"largest", i>>, MaxOf({p[i] : p \in S}), MaxOf({p[i] : p \in M}))
                                           /\ ChkEq(l, <<"smallest", i>>, MinOf({p[i] : p \in S}), MinOf({p[i] : p \in M}))

(* ------------------------------------------------------------------ fields of view *)
TFov == /\ Is("fov")
        /\ LET fs == e.cams u == Unique(fs, e.z) IN
           /\ ChkEq(l, "inside", InAny(fs, e.e, e.z), e.inside)
           /\ ChkEq(l, "inside horizontally", InAnyYaw(fs, e.z), e.yaw)
           /\ ChkEq(l, "each camera", [k \in 1..Len(fs) |-> IF InFov(fs[k], e.e, e.z) THEN 1 ELSE 0], e.one)
           /\ ChkEq(l, "each camera horizontally", [k \in 1..Len(fs) |-> IF InYaw(fs[k], e.z) THEN 1 ELSE 0], e.oney)
           /\ ChkEq(l, "only camera", <<u # 0, u - 1>>, <<e.w, e.which>>)
           /\ ChkEq(l, "edge flag", e.g, e.edge >= 0)
           /\ Chk(l, <<"edge camera", EdgeOf(fs, e.z), e.edge>>, (e.edge + 1) \in EdgeOf(fs, e.z))
           /\ ChkNear(l, "scale", ScaleOf(fs, e.z, e.edge + 1), e.scale, 3)
           /\ Chk(l, "scale in [0, 1]", e.scale >= 0 /\ e.scale <= 10000)
ColIn(f, idx, yaw, m) == /\ \E z \in ColumnEdges(idx, yaw) : 2 * AngDist(z, f.y) <= f.h + m
                         /\ 2 * Abs(ColumnElevation - f.p) <= f.v + m
TColumn == /\ Is("column")
           /\ \A k \in 1..Len(e.cams) : LET f == e.cams[k] IN
                Chk(l, <<"column visible to camera", k, e.one[k]>>, (ColIn(f, e.idx, e.yaw, -6) => e.one[k] = 1) /\ (e.one[k] = 1 => ColIn(f, e.idx, e.yaw, 6)))
           /\ ChkEq(l, "column visible", \E k \in 1..Len(e.one) : e.one[k] = 1, e.in)
TGrow == /\ Is("grow")
         /\ LET f == e.cams[1] g == Grow(f, ToSet(e.dirs)) o == e.after[1] IN
            /\ ChkNear(l, "horizontal opening", g.h, o.h, 3) /\ ChkNear(l, "vertical opening", g.v, o.v, 3)
            /\ (g.v = f.v \/ g.v > f.v + 3) => ChkNear(l, "pitch", g.p, o.p, 3)
            /\ (g.h = f.h \/ g.h > f.h + 3) => Chk(l, <<"axis", g.y, o.y>>, AngDist(g.y, o.y) <= 3)
            /\ Chk(l, "never shrinks", o.h >= f.h /\ o.v >= f.v)

(* ------------------------------------------------------------------ messages *)
NaN3 == <<NaN, NaN, NaN>>
Unused == [pos |-> NaN3, vel |-> NaN3, acc |-> NaN3, yaw |-> NaN, rate |-> NaN]
YawOf(y) == LET m == (y + 3142) % 6283 IN m - 3142
TTraj == /\ Is("traj")
         /\ LET p == e.m.points IN
            /\ ChkEq(l, "message type", 0, e.m.type)
            /\ ChkEq(l, "position", SubSeq(e.in, 1, 3), p[1].pos) /\ ChkEq(l, "velocity", SubSeq(e.in, 4, 6), p[1].vel)
            /\ ChkEq(l, "acceleration", NaN3, p[1].acc) /\ ChkNear(l, "yaw", e.yaw, p[1].yaw, 1) /\ ChkNear(l, "yaw rate", -e.rate, p[1].rate, 1)
            /\ \A k \in 2..5 : ChkEq(l, <<"unused point", k>>, Unused, p[k])
            /\ ChkEq(l, "valid points", <<1, 0, 0, 0, 0>>, e.m.valid) /\ ChkEq(l, "time horizon", <<NaN, NaN, NaN, NaN, NaN>>, e.m.horizon)
            /\ ChkEq(l, "stamp", e.now, e.m.stamp)
TBezier == /\ Is("bezier")
           /\ ChkEq(l, "message type", 1, e.m.type)
           /\ \A k \in 1..5 : /\ ChkEq(l, <<"control point", k>>, <<e.in[k][2], e.in[k][1], -e.in[k][3]>>, e.m.points[k].pos)
                              /\ ChkNear(l, <<"control yaw", k>>, 1571 - e.in[k][4], e.m.points[k].yaw, 1)
           /\ ChkEq(l, "valid points", <<1, 1, 1, 1, 1>>, e.m.valid) /\ ChkEq(l, "time horizon", <<NaN, NaN, NaN, NaN, e.dur>>, e.m.horizon)
           /\ ChkEq(l, "stamp", e.now, e.m.stamp)
Next == TNew \/ TH2C \/ TF2C \/ TC2H \/ TC2F \/ TOfBin \/ TToBin \/ TWrapPolar \/ TWrap \/ TWrapPi \/ TAngDiff \/ TIdxDiff \/ TNextYaw \/ TAngVel
        \/ TQuat \/ TPose \/ TFrames \/ TOrient \/ TDist \/ TMaxima \/ TFov \/ TColumn \/ TGrow \/ TTraj \/ TBezier
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
