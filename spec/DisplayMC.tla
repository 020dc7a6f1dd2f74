------------------------------ MODULE DisplayMC ------------------------------
(***************************************************************************)
(* A vehicle flies over a small field and draws its way; a look-ahead tree    *)
(* grows; a camera looks around. Checked: nothing drawn of the way is ever    *)
(* lost, the tree on the screen is the tree, pyramids and fans are where the   *)
(* camera and the sectors are, marks stay inside the image.                  *)
(***************************************************************************)
EXTENDS Display
CONSTANTS FIELD, CYCLES, NODES, ANGLES, RANGES
VARIABLES what, screen, n, at, wp, drawn, tree, closed, cam, rs
vars == <<what, screen, n, at, wp, drawn, tree, closed, cam, rs>>
Places == {<<x, y, 0>> : x \in FIELD, y \in FIELD}
Topics == {SEGMENTS[i] : i \in 1..3}
Cams == [y : ANGLES, p : {-1500, 0}, h : {6000, 9000}, v : {4600}]
Init == /\ screen = [t \in Topics |-> <<>>] /\ n = 0 /\ drawn = [t \in Topics |-> {}]
        /\ at = <<0, 0, 0>> /\ wp = <<0, 0, 0>> /\ tree = <<[p |-> <<0, 0, 0>>, o |-> 0]>> /\ closed = <<>>
        /\ what \in {"way", "tree", "view"} /\ rs = <<>>
        /\ cam \in (IF what = "view" THEN Cams ELSE {[y |-> 0, p |-> 0, h |-> 6000, v |-> 4600]})
Segment(t, a, b) == CASE t = "path_actual" -> <<at, a>> [] t = "path_waypoint" -> <<wp, b>> [] OTHER -> <<wp, a>>
Cycle == \E a \in Places : \E b \in Places :
           /\ what = "way" /\ n < CYCLES /\ n' = n + 1 /\ at' = a /\ wp' = b
           /\ screen' = [t \in Topics |-> Show(screen, t, n, Segment(t, a, b))[t]]
           /\ drawn' = [t \in Topics |-> drawn[t] \cup {Segment(t, a, b)}]
           /\ UNCHANGED <<what, tree, closed, cam, rs>>
Sprout == /\ what = "tree" /\ Len(tree) < NODES /\ closed = <<>>
        /\ \E o \in 0..Len(tree) - 1 : \E p \in Places : tree' = Append(tree, [p |-> p, o |-> o])
        /\ UNCHANGED <<what, screen, n, at, wp, drawn, closed, cam, rs>>
Close == /\ what = "tree" /\ Len(closed) < NODES - 1 /\ \E k \in 0..Len(tree) - 1 : (k \notin {closed[i] : i \in 1..Len(closed)}) /\ closed' = Append(closed, k)
         /\ UNCHANGED <<what, screen, n, at, wp, drawn, tree, cam, rs>>
Sense == what = "view" /\ Len(rs) < 4 /\ (\E r \in RANGES : rs' = Append(rs, r)) /\ UNCHANGED <<what, screen, n, at, wp, drawn, tree, closed, cam>>
Next == Cycle \/ Sprout \/ Close \/ Sense
Spec == Init /\ [][Next]_vars

NothingIsLost == \A t \in Topics : {screen[t][i] : i \in DOMAIN screen[t]} = drawn[t]
TheWayIsConnected == \A i \in DOMAIN screen["path_actual"] : i > 0 => screen["path_actual"][i][1] = screen["path_actual"][i - 1][2]
EveryClosedNode == LET E == Edges(tree, closed) IN
  /\ Len(E) = 2 * Len(closed)
  /\ \A k \in 1..Len(closed) : E[2 * k - 1] = tree[closed[k] + 1].p /\ E[2 * k] = tree[tree[closed[k] + 1].o + 1].p
StrokesConnect == LET p == [i \in 1..Len(tree) |-> tree[i].p] S == Strokes(p) IN
  /\ \A k \in 1..Len(S) : k % 2 = 0 /\ k < Len(S) => S[k] = S[k + 1]
  /\ (Len(p) >= 2 => S[1] = p[1] /\ S[Len(S)] = p[Len(p)] /\ Len(S) = 2 * (Len(p) - 1))
RANGE == 12000
Side(c, k) == Pyramid(c, RANGE)[k]
PyramidLooksAhead == LET P == Pyramid(cam, RANGE) IN
  /\ \A k \in 1..12 : IF k % 3 = 1 THEN P[k] = <<0, 0, 0>> ELSE Abs(Norm3(P[k][1], P[k][2], P[k][3]) - RANGE) <= 20
  /\ P[3] = P[5] /\ P[6] = P[8] /\ P[9] = P[11] /\ P[12] = P[2]
  (* it looks where the camera looks and has its height *)
  /\ LET m == [i \in 1..3 |-> (P[2][i] + P[3][i] + P[6][i] + P[9][i]) \div 4] a == FcuToCart(0, cam.y, 1000) IN
     Abs(m[1] * a[2] - m[2] * a[1]) <= 20000 /\ m[1] * a[1] + m[2] * a[2] > 0
  /\ P[2][3] = P[9][3] /\ P[3][3] = P[6][3] /\ (cam.p = 0 => Abs(P[2][3] + P[3][3]) <= 4)
FanIsTheScan == LET F == Fan(at, rs, RANGE, 600) H == Hues(rs, RANGE) IN
  /\ Len(F) = 3 * Len(rs) /\ Len(H) = Len(F)
  /\ \A i \in 1..Len(rs) : LET a == F[3 * i - 1] b == F[3 * i] d == Norm2(a[1] - at[1], a[2] - at[2]) IN
       /\ F[3 * i - 2] = at /\ d <= RANGE + 10 /\ a[3] = at[3] /\ b[3] = at[3]
       /\ (IsFinite(rs[i]) => Abs(d - Min2(rs[i], RANGE)) <= 10)
       /\ (H[3 * i][1] + H[3 * i][2] = 100) /\ (H[3 * i] = <<0, 100, 0>> <=> rs[i] # NaN /\ rs[i] >= RANGE)
       (* neighbouring sectors touch *)
       /\ (i < Len(rs) /\ IsFinite(rs[i]) /\ rs[i] = rs[i + 1] => F[3 * i - 1] = F[3 * i + 3])
MarksInside == \A z \in ANGLES : \A el \in {-9000, -4500, 0, 300, 9000} : \A b \in AnyBin(el, z, 3) :
                 Marks(b, b, b) \subseteq 0..(3 * Rows * Cols - 1) /\ Cardinality(Marks(b, b, b)) = 3
=============================================================================
