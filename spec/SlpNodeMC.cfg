CONSTANTS Emit = FALSE
 MaxLen = 0
 NClouds = 4
 NTicks = 4
 Predicate = TRUE
SPECIFICATION Spec
INVARIANTS CycleIsLegal FlagMeansPlanned MatchesObservable SettledOk
PROPERTY Processed
CHECK_DEADLOCK FALSE
