CONSTANTS NStates = 2
          Trans = {"NEXT1", "NEXT2"}
          MaxLen = 3
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY RepeatStays
PROPERTY OnlyMapped
PROPERTY RunsCurrentOnce
CHECK_DEADLOCK FALSE
