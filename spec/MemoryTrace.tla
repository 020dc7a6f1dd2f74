----------------------------- MODULE MemoryTrace -----------------------------
EXTENDS ObstacleMap, Json, IOUtils
CONSTANTS CheckMemory, CheckMap
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem, cams, cfg, cp, msg
vars == <<l, mem, cams, cfg, cp, msg>>
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
NoMsg == [stamp |-> 0, frame |-> "", inc |-> 0, amin |-> 0, rmin |-> 0, rmax |-> 0, r |-> <<>>]
Init == l = 1 /\ mem = <<>> /\ cams = <<>> /\ cfg = [min |-> 0] /\ cp = 0 /\ msg = NoMsg
TNew == Is("New") /\ mem' = <<>> /\ cams' = <<>> /\ cfg' = [min |-> 0] /\ cp' = 0 /\ msg' = NoMsg
TApply == Is("apply") /\ cfg' = [min |-> e.min, max |-> e.max, age |-> e.age, count |-> e.count] /\ UNCHANGED <<mem, cams, cp, msg>>
TFov == Is("fov") /\ cams' = e.cams /\ UNCHANGED <<mem, cfg, cp, msg>>
TPx4 == Is("px4") /\ cp' = e.cp /\ UNCHANGED <<mem, cams, cfg, msg>>
P3(q) == <<q[1], q[2], q[3]>>

MemoryOk ==
  \E pos \in {e.pos} :
  \E ok \in {SelectSeq(e.in, LAMBDA q : Finite3(q) /\ LET d == Reach(q, pos) IN d > 10 * cfg.min /\ d < 10 * cfg.max)} :
  \E fresh \in {[i \in 1..Len(ok) |-> [c |-> CellAt(ok[i], pos, FineRes), p |-> ok[i]]]} :
  \E old \in {[i \in 1..Len(mem) |->
                 [c |-> CellAt(P3(mem[i]), pos, FineRes), p |-> P3(mem[i]), age |-> mem[i][4], near |-> Reach(P3(mem[i]), pos) < 10 * cfg.max,
                  seen |-> SeenAt(P3(mem[i]), pos, e.yaw, e.pitch, cams)]]} :
  \E out \in {[i \in 1..Len(e.out) |-> [c |-> CellAt(P3(e.out[i]), pos, FineRes), p |-> P3(e.out[i]), age |-> e.out[i][4]]]} :
  \E dense \in {LET cs == {fresh[i].c : i \in 1..Len(fresh)} IN {c \in cs : Cardinality({i \in 1..Len(fresh) : fresh[i].c = c}) >= cfg.count}} :
  \E elig \in {{i \in 1..Len(old) : Eligible(old[i], cfg.age) /\ old[i].c \notin dense}} :
  \E filled \in {dense \cup {old[i].c : i \in elig}} :
  \E ocells \in {{out[i].c : i \in 1..Len(out)}} :
     /\ Chk(l, <<"one point per cell", Len(out), Cardinality(ocells)>>, Cardinality(ocells) = Len(out))
     /\ Chk(l, <<"cells that must hold a point but do not", filled \ ocells>>, filled \subseteq ocells)
     /\ Chk(l, <<"points in cells that must be empty", {out[i] : i \in {k \in 1..Len(out) : out[k].c \notin filled}}>>, ocells \subseteq filled)
     /\ \A i \in 1..Len(out) : Chk(l, <<"point of cell", out[i]>>,
           IF out[i].c \in dense THEN out[i].age = 0 /\ \E k \in 1..Len(fresh) : fresh[k].c = out[i].c /\ fresh[k].p = out[i].p
           ELSE \E k \in elig : old[k].c = out[i].c /\ old[k].p = out[i].p /\ Near(old[k].age + e.dt, out[i].age, 2 + out[i].age \div 100000))
     /\ ChkEq(l, "shape", <<Len(out), 1>>, <<e.w, e.h>>)

SectorOk(i, z, r, obs) ==
  \/ ~ColSeen(cams, z, e.yaw, 6) /\ r = NaN
  \/ ColSeen(cams, z, e.yaw, -6) /\ \E x \in Reported(obs, z, cfg.min, cfg.max) : Near(x, r, 1)
  \/ ColSeen(cams, z, e.yaw, 6) /\ ~ColSeen(cams, z, e.yaw, -6) /\ (r = NaN \/ \E x \in Reported(obs, z, cfg.min, cfg.max) : Near(x, r, 1))
Pixel(o) == (Rows - 1 - o.e) * Cols + o.z + 1
MapOk ==
  \E pos \in {e.pos} :
  \E cells \in {[i \in 1..Len(e.out) |-> CellAt(P3(e.out[i]), pos, Res)]} :
  \E dist \in {[i \in 1..Len(e.out) |-> Reach(P3(e.out[i]), pos)]} :
  \E h \in {{[r EXCEPT !.d = RDiv(r.d, 10)] : r \in HistOf(cells, dist)}} :
  \E obs \in {{[e |-> e.hist[i][1], z |-> e.hist[i][2], d |-> e.hist[i][3]] : i \in 1..Len(e.hist)}} :
     /\ Chk(l, <<"bins", "specified", h, "observed", obs>>,
            /\ {<<r.e, r.z>> : r \in h} = {<<r.e, r.z>> : r \in obs}
            /\ \A r \in h : \E o \in obs : o.e = r.e /\ o.z = r.z /\ Abs(o.d - r.d) <= 1)
     /\ ChkEq(l, "image size", Rows * Cols, Len(e.image))
     \* image: one byte per bin, the highest elevation first
     /\ \A i \in 1..Rows * Cols : e.image[i] # 0 => Chk(l, <<"dark bin", i>>, \E o \in obs : i = Pixel(o))
     /\ \A o \in obs : ChkNear(l, <<"grey value", o>>, Grey(o.d, cfg.max), e.image[Pixel(o)], 1)
     /\ IF ~(cp < 0)     \* also if the setting is not known (NaN is encoded as a large number)
        THEN /\ ChkEq(l, "message", <<e.now, "local_origin", 104720, 0, cfg.min, cfg.max, Cols>>,
                      <<e.scan.stamp, e.scan.frame, e.scan.inc, e.scan.amin, e.scan.rmin, e.scan.rmax, Len(e.scan.r)>>)
             /\ \A i \in 1..Cols : LET z == Sector(i - 1) IN
                  Chk(l, <<"sector", i - 1, "visible", ColSeen(cams, z, e.yaw, 6), "specified", Reported(obs, z, cfg.min, cfg.max), "observed", e.scan.r[i]>>,
                      SectorOk(i, z, e.scan.r[i], obs))
        ELSE ChkEq(l, "no message while collision prevention is off", msg, e.scan)
TRun == /\ Is("run")
        /\ (CheckMemory => MemoryOk)
        /\ (CheckMap => MapOk)
        /\ mem' = e.out
        /\ msg' = IF CheckMap THEN e.scan ELSE msg
        /\ UNCHANGED <<cams, cfg, cp>>
Next == TNew \/ TApply \/ TFov \/ TPx4 \/ TRun
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
