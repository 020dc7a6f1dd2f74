------------------------------- MODULE SlpNode -------------------------------
(* The landing planner node at the level of what it receives and publishes. The state s holds
   what was delivered to it and what it already did; the guards say what it may do next.
   Times are in milliseconds, stamps are pairs <<milliseconds, nanoseconds>> (nanoseconds < 1000:
   the planner's clouds only keep microseconds). *)
EXTENDS VPLib
Active == 4  Critical == 5  Termination == 8
NoCloud == [id |-> 0, s |-> -1, ns |-> 0]
InitNode == [mode |-> "none", tcrit |-> 500, tterm |-> 15000, now |-> 0, lastAlgo |-> -1000000000, sent |-> -1000000000,
             pose |-> <<0, 0>>, tfs |-> <<>>, newest |-> NoCloud, clouds |-> {}, used |-> 0, raw |-> 0,
             phase |-> "idle", q |-> 0, st |-> 0, due |-> FALSE, prev |-> <<>>, seq |-> -1]
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Tf(s, k) == <<s.tfs[k].s, s.tfs[k].ns>>
Covers(s, st) == s.tfs # <<>> /\ Before(Tf(s, 1), st) /\ Before(st, Tf(s, Len(s.tfs)))
\* a cloud can be put into the world frame once transforms cover its stamp, also at microsecond resolution
Ready(s, c) == Covers(s, <<c.s, c.ns>>) /\ Covers(s, <<c.s, 0>>)
Shift(s, c) == LET K == {k \in 1..Len(s.tfs) : Before(Tf(s, k), <<c.s, 0>>)} IN (s.tfs[CHOOSE k \in K : \A j \in K : j <= k].s % 3) - 1

Create(s, rosbag, tcrit, tterm) == [s EXCEPT !.mode = IF rosbag THEN "raw" ELSE "cloud", !.tcrit = tcrit, !.tterm = tterm]
Time(s, t) == [s EXCEPT !.now = t]
Pose(s, p) == [s EXCEPT !.pose = p]
AddTf(s, t) == [s EXCEPT !.tfs = Append(@, t)]
Cloud(s, c) == IF s.mode # "cloud" THEN s ELSE [s EXCEPT !.newest = c, !.clouds = @ \cup {c}]
Raw(s, id) == IF s.mode # "raw" THEN s ELSE [s EXCEPT !.raw = id]

CanTick(s) == s.phase = "idle"
Tick(s) == [s EXCEPT !.phase = "wait", !.q = s.now, !.st = Active, !.due = FALSE]
\* one pass of waiting for data; when that lasts too long the heartbeat reports it after every pass
CanPass(s) == s.phase = "wait" /\ ~s.due
Overdue(s) == s.now - s.q > s.tterm
Pass(s) == IF Overdue(s) THEN [s EXCEPT !.due = TRUE, !.st = Termination] ELSE s

\* which clouds may the next cycle be based on: complete, transformed, never an older one than before
Usable(s) == {c \in s.clouds : c.id > s.used /\ Ready(s, c)}
CanCycle(s) == s.phase = "wait" /\ ~s.due /\ (IF s.mode = "raw" THEN s.raw # 0 ELSE Usable(s) # {})
Health(s) ==
   LET a == s.now - s.lastAlgo b == s.now IN
   IF a > s.tterm /\ b > s.tterm THEN Termination ELSE IF a > s.tcrit /\ b > s.tcrit THEN Critical ELSE s.st
InGrid(c) == c[1] \in 0..5 /\ c[2] \in 0..5
CellsOf(s, c) ==
   LET i == Shift(s, c) + 3 - s.pose[1] IN
   {d \in {<<i, 3 - s.pose[2], c.id>>, <<i, 1 - s.pose[2], 21 - c.id>>} : InGrid(d)}
RawCells(id) == {<<3, 3, id>>, <<3, 1, 21 - id>>}
Cycle(s, id) ==
   [s EXCEPT !.phase = "ran", !.st = Health(s), !.lastAlgo = s.now, !.used = IF s.mode = "raw" THEN @ ELSE id,
             !.raw = 0, !.due = s.now - s.sent > 200]
CanStatus(s) == s.due
Status(s) == [s EXCEPT !.due = FALSE, !.sent = s.now]
CanDone(s) == s.phase = "ran" /\ ~s.due
Done(s) == [s EXCEPT !.phase = "idle"]
(* once nothing moves any more, a waiting planner has used the newest cloud if that can be transformed *)
Settled(s) == s.phase = "wait" => IF s.mode = "raw" THEN s.raw = 0
                                  ELSE s.newest = NoCloud \/ s.newest.id <= s.used \/ ~Ready(s, s.newest)
=============================================================================
