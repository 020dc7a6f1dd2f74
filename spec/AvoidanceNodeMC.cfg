CONSTANTS Emit = FALSE
          MaxLen = 3
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY NeverHealthyWithoutData
PROPERTY TerminationOnlyWhenDue
PROPERTY UnpolledUntouched
CHECK_DEADLOCK FALSE
