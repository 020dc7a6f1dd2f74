------------------------- MODULE TransformBufferMC -------------------------
EXTENDS TransformBuffer, Json
CONSTANTS Pairs, Times, Size, Emit, MaxLen
VARIABLES hist, ever      \* ever: everything inserted so far (history variable)
Tr(p, t) == [t |-> t, x |-> 7 * t, y |-> 100 - t, z |-> 3, a |-> 10 * t]
Init == TBInit(Pairs, Size) /\ hist = <<>> /\ ever = [p \in Pairs |-> {}]
DoInsert == \E p \in Pairs, t \in Times :
   /\ Insert(p, Tr(p, t))
   /\ ever' = [ever EXCEPT ![p] = @ \union {t}]
   /\ hist' = Append(hist, [op |-> "insert", pair |-> p, t |-> t])
DoGet == \E p \in Pairs, t \in Times :
   /\ UNCHANGED <<tbVars, ever>>
   /\ hist' = Append(hist, [op |-> "get", pair |-> p, t |-> t])
Next == Len(hist) < MaxLen /\ (DoInsert \/ DoGet)
Spec == Init /\ [][Next]_<<tbVars, hist, ever>>
View == <<buf, Len(hist)>>
EmitEdge == IF Emit THEN PrintT(ToJson(hist')) ELSE TRUE

Increasing == \A p \in Pairs : \A k \in 1..(Len(buf[p]) - 1) : buf[p][k].t < buf[p][k+1].t
SpanBounded == \A p \in Pairs : buf[p] # <<>> => Newest(buf[p]).t - buf[p][1].t <= Size
NewestIsMax == \A p \in Pairs : (buf[p] = <<>>) = (ever[p] = {}) /\ (buf[p] # <<>> => Newest(buf[p]).t \in ever[p]
                                 /\ \A t \in ever[p] : t <= Newest(buf[p]).t)
OnlyOwn == \A p \in Pairs : \A k \in 1..Len(buf[p]) : buf[p][k].t \in ever[p]
RefusedChangesNothing == [][ \A p \in Pairs : buf'[p] # buf[p] => (buf[p] = <<>> \/ Newest(buf'[p]).t > Newest(buf[p]).t) ]_<<tbVars, hist, ever>>
InterpolationBetween == \A p \in Pairs, t \in Times : InRange(buf[p], t) =>
    LET r == Interp(buf[p], t) IN r.t = t /\ r.x = 7 * t /\ r.y = 100 - t /\ r.a = 10 * t
=============================================================================
