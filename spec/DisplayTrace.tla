----------------------------- MODULE DisplayTrace -----------------------------
EXTENDS Display, Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, screen
vars == <<l, screen>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Topics == {SEGMENTS[i] : i \in 1..3}
Blank == [t \in Topics |-> <<>>]
Init == l = 1 /\ screen = Blank
TNew == Is("New") /\ screen' = Blank
Names == [k \in 1..Len(e.out) |-> e.out[k].t]
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearV(a[i], b[i], tol)
ARROW == 0
SPHERE == 2
STRIP == 4
LINES == 5
TRIANGLES == 11
(* a marker that can be seen: right kind, frame, colour *)
Mk(m, kind, frame) == /\ ChkEq(l, <<m.t, "kind">>, kind, m.k) /\ ChkEq(l, <<m.t, "frame">>, frame, m.f)
                      /\ Chk(l, <<m.t, "cannot be seen">>, m.visible /\ m.act = 0 /\ m.forever /\ m.s[1] > 0)
Ball(m, p) == Mk(m, SPHERE, "local_origin") /\ ChkEq(l, <<m.t, "position">>, p, m.p) /\ Chk(l, <<m.t, "size">>, m.s[1] = m.s[2] /\ m.s[2] = m.s[3])
TPaths == /\ Is("paths") /\ ChkEq(l, "drawn", SEGMENTS, Names)
          /\ \A k \in 1..3 : \E m \in {e.out[k]} :
               /\ Mk(m, STRIP, "local_origin") /\ ChkEq(l, <<m.t, "segment">>, <<e.v[2 * k - 1], e.v[2 * k]>>, m.pts)
               /\ Chk(l, <<m.t, "overwrites what was drawn before", m.id>>, m.id \notin DOMAIN screen[m.t])
          /\ Chk(l, "colours of the paths", Cardinality({e.out[k].c : k \in 1..3}) = 3)
          /\ screen' = [t \in Topics |-> LET m == e.out[CHOOSE k \in 1..3 : e.out[k].t = t] IN Show(screen, t, m.id, m.pts)[t]]
TWps == /\ Is("wps") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"original_waypoint", "adapted_waypoint", "smoothed_waypoint">>, Names)
        /\ \A k \in 1..3 : Ball(e.out[k], e.v[k])
        /\ Chk(l, "colours of the waypoints", Cardinality({e.out[k].c : k \in 1..3}) = 3)
TArrow == /\ Is("arrow") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"current_setpoint">>, Names)
          /\ \E m \in {e.out[1]} : /\ Mk(m, ARROW, "local_origin") /\ ChkEq(l, "colour of the state", StateColour[e.state], m.c)
                                   /\ Chk(l, <<"arrow", m.pts>>, Close(<<e.pos, Plus3(e.pos, e.vel)>>, m.pts, 2))
TOff == /\ Is("off") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"closest_point", "deg60_point">>, Names)
        /\ \A k \in 1..2 : Ball(e.out[k], e.v[k])
        /\ Chk(l, "colours of the points", e.out[1].c # e.out[2].c)
GoalOk(k, p) == Ball(e.out[k], p)
TGoal == Is("goal") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"goal_position">>, Names) /\ GoalOk(1, e.p)
FovOk(k, cams, range) ==
  \A i \in 1..Len(cams) : \E m \in {e.out[k + i - 1]} :
    /\ Mk(m, TRIANGLES, "fcu") /\ ChkEq(l, "one marker per camera", i - 1, m.id)
    /\ Chk(l, <<"pyramid of camera", i, "specified", Pyramid(cams[i], range), "observed", m.pts>>, Close(Pyramid(cams[i], range), m.pts, 10 + range \div 1000))
Repeat(t, n) == [k \in 1..n |-> t]
TFov == Is("fov") /\ UNCHANGED screen /\ ChkEq(l, "drawn", Repeat("fov", Len(e.cams)), Names) /\ FovOk(1, e.cams, e.range)
ScanOk(k, pos, rs, max, inc) ==
  \E m \in {e.out[k]} :
    /\ Mk(m, TRIANGLES, "local_origin")
    /\ \E F \in {Fan(pos, rs, max, inc)} : Chk(l, <<"range scan", {i \in 1..Min2(Len(F), Len(m.pts)) : ~NearV(F[i], m.pts[i], 10 + max \div 1000)}>>, Close(F, m.pts, 10 + max \div 1000))
    /\ \E H \in {Hues(rs, max)} : Chk(l, <<"colours of the range scan", {i \in 1..Min2(Len(H), Len(m.cols)) : ~NearV(H[i], m.cols[i], 2)}>>, Close(H, m.cols, 2))
TScan == Is("scan") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"range_scan">>, Names) /\ ScanOk(1, e.pos, e.r, e.max, e.inc)
TreeOk(k, tree, closed, path) ==
  /\ Mk(e.out[k], LINES, "local_origin") /\ ChkEq(l, "edges of the tree", Edges(tree, closed), e.out[k].pts)
  /\ Mk(e.out[k + 1], LINES, "local_origin") /\ ChkEq(l, "lines of the path", Strokes(path), e.out[k + 1].pts)
  /\ Chk(l, "tree and path look alike", e.out[k].c # e.out[k + 1].c)
TTree == Is("tree") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"complete_tree", "tree_path">>, Names) /\ TreeOk(1, e.tree, e.closed, e.path)
Bin(p, pos) == LET d == Sub3(p, pos) IN
  IF d = <<0, 0, 0>> THEN AnyBin(0, 0, 0)
  ELSE LET u == Scale3(d, 1 + 50000 \div Max2(Max2(Abs(d[1]), Abs(d[2])), Abs(d[3]))) IN
       AnyBin(CDeg(Atan2(u[3], LenXY(u))), CDeg(Atan2(u[1], u[2])), 3)
(* an image its receiver can unpack: rows of `step` bytes *)
Fits(m, enc, channels) == /\ ChkEq(l, <<m.t, "size">>, <<Rows, Cols, enc>>, <<m.h, m.w, m.enc>>)
                          /\ ChkEq(l, <<m.t, "bytes per row">>, channels * Cols, m.step) /\ ChkEq(l, <<m.t, "bytes">>, m.given, m.n)
                          /\ Chk(l, <<m.t, "byte order">>, ~m.big)
ImagesOk(k) ==
  /\ Fits(e.out[k], "mono8", 1) /\ Fits(e.out[k + 1], "rgb8", 3)
  /\ ChkEq(l, "the histogram image is the planner's", <<>>, e.out[k].diff)
  /\ \E D \in {{e.out[k + 1].diff[i] : i \in 1..Len(e.out[k + 1].diff)}} :
     IF ~e.full THEN Chk(l, "nothing to mark", D = {})
     ELSE LET at == {d[1] : d \in D} IN
          Chk(l, <<"marked in the cost image", at>>,
              /\ \A d \in D : d[2] = 255
              /\ \E h \in AnyBin(0, 9000 - e.yaw, 2) : \E w \in Bin(e.wp, e.pos) : \E a \in Bin(e.ad, e.pos) :
                   IF e.op = "images" THEN at = Marks(h, w, a) ELSE at \subseteq Marks(h, w, a) /\ Byte(h, 2) \in at)
TImages == Is("images") /\ UNCHANGED screen /\ ChkEq(l, "drawn", <<"histogram_image", "cost_image">>, Names) /\ ImagesOk(1)
(* a whole planning cycle *)
TShow == /\ Is("show") /\ UNCHANGED screen
         /\ ChkEq(l, "drawn", <<"local_pointcloud", "pointcloud_size", "complete_tree", "tree_path", "goal_position", "histogram_image", "cost_image">>
                              \o Repeat("fov", Len(e.cams)) \o <<"range_scan">>, Names)
         /\ ChkEq(l, "cloud", e.cloud, e.out[1].pts) /\ ChkEq(l, "size of the cloud", Len(e.cloud), e.out[2].n)
         /\ TreeOk(3, e.tree, e.closed, e.path) /\ GoalOk(5, e.goal) /\ ImagesOk(6) /\ FovOk(8, e.cams, e.range)
         /\ ScanOk(8 + Len(e.cams), e.pos, e.r, e.max, e.inc)
Next == TNew \/ TPaths \/ TWps \/ TArrow \/ TOff \/ TGoal \/ TFov \/ TScan \/ TTree \/ TImages \/ TShow
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
