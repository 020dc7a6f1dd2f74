------------------------------ MODULE UsmMC -------------------------------
EXTENDS Usm, Json
CONSTANTS NStates, Trans, MaxLen
S == 0..(NStates - 1)
Pairs == S \X Trans
Init == /\ err \in S /\ state \in S
        /\ \E D \in SUBSET Pairs : table \in [D -> S]
        /\ runs = [s \in S |-> 0] /\ chosen = 0
Next == \E t \in Trans \union {"REPEAT", "ERROR"} : chosen < MaxLen /\ runs[state] < MaxLen /\ Iterate(t)
Spec == Init /\ [][Next]_usmVars
TypeOK == state \in S /\ chosen \in Nat
RepeatStays == [][ chosen' = chosen => state' = state ]_usmVars
OnlyMapped == [][ chosen' # chosen => (state' = err \/ \E k \in DOMAIN table : k[1] = state /\ table[k] = state') ]_usmVars
RunsCurrentOnce == [][ \A s \in S : runs'[s] = runs[s] + (IF s = state THEN 1 ELSE 0) ]_usmVars
=============================================================================
