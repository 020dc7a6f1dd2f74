---------------------------- MODULE SlpNodeTrace ----------------------------
EXTENDS SlpNode, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
e == Trace[l]
Is(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Init == l = 1 /\ s = InitNode
TNew == Is("New") /\ s' = [InitNode EXCEPT !.seq = s.seq]
TCreate == Is("create") /\ s' = Create(s, e.rosbag, e.tcrit, e.tterm)
TAdv == Is("adv") /\ s' = Time(s, e.now)
TTf == Is("tf") /\ s' = AddTf(s, [s |-> e.s, ns |-> e.ns])
TPose == Is("pose") /\ s' = Pose(s, e.p)
TCloud == Is("cloud") /\ s' = Cloud(s, [id |-> e.id, s |-> e.s, ns |-> e.ns])
TRaw == Is("raw") /\ s' = Raw(s, e.id)
TTick == Is("tick") /\ Chk(l, "a new planner cycle starts before the last one is over", CanTick(s)) /\ s' = Tick(s)
TPass == Is("pass") /\ Chk(l, "waiting pass out of order, or missing heartbeat", CanPass(s)) /\ s' = Pass(s)
Zeros == [k \in 1..36 |-> 0]
PrevDump == IF s.prev = <<>> THEN [size |-> 6000, cell |-> 1000, mean |-> Zeros, std |-> Zeros, cnt |-> Zeros, land |-> Zeros] ELSE s.prev
Cells == {e.cells[k] : k \in 1..Len(e.cells)}
Layout == << <<"height", 6, 36>>, <<"width", 6, 6>> >>
TGrid == /\ Is("grid")
   /\ Chk(l, <<"a planner cycle without new data", s.mode, "clouds", s.clouds, "already used", s.used>>, CanCycle(s))
   /\ IF s.mode = "raw" THEN /\ ChkEq(l, "cells of the recorded grid", RawCells(s.raw), Cells) /\ s' = [Cycle(s, 0) EXCEPT !.prev = e.cur, !.seq = e.seq]
      ELSE LET U == {c \in Usable(s) : CellsOf(s, c) = Cells} IN
           /\ Chk(l, <<"cycle is not based on one complete, new and correctly transformed cloud: cells", Cells, "possible", {CellsOf(s, c) : c \in Usable(s)}>>, U # {})
           /\ \E c \in U : s' = [Cycle(s, c.id) EXCEPT !.prev = e.cur, !.seq = e.seq]
   /\ ChkEq(l, "time of the cycle", s.now, e.now)
   /\ ChkEq(l, "frame", "local_origin", e.frame)
   /\ Chk(l, <<"sequence number", e.seq, "after", s.seq>>, e.seq = s.seq + 1 \/ s.seq = -1)
   /\ ChkEq(l, "published grid", PrevDump, e.msg)
   /\ ChkEq(l, "layout", <<Layout, Layout, Layout, Layout>>, e.lay)
   /\ ChkEq(l, "own cell", <<3, 3>>, e.idx)
TStatus == Is("status") /\ Chk(l, "heartbeat that is not due", CanStatus(s)) /\ s' = Status(s)
   /\ ChkEq(l, "heartbeat state", s.st, e.state) /\ ChkEq(l, "heartbeat component", 196, e.component)
   /\ ChkEq(l, "heartbeat stamp", s.now, e.stamp)
TDone == Is("done") /\ Chk(l, "cycle ends without its grid or heartbeat", CanDone(s)) /\ s' = Done(s) /\ ChkEq(l, "timers fired", 1, e.timers)
TSettled == Is("settled") /\ ChkEq(l, "planner still waiting", s.phase = "wait", e.waiting)
   /\ Chk(l, <<"the newest data is never processed", s.newest, "raw", s.raw>>, Settled(s)) /\ s' = s
Next == TNew \/ TCreate \/ TAdv \/ TTf \/ TPose \/ TCloud \/ TRaw \/ TTick \/ TPass \/ TGrid \/ TStatus \/ TDone \/ TSettled
Spec == Init /\ [][Next]_<<l, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
