CONSTANT Emit = FALSE
SPECIFICATION Spec
INVARIANT OnPath
INVARIANT StartsAtSecondLast
INVARIANT ExpiresOnce
INVARIANT TooShort
INVARIANT ExpiresWhenPassed
INVARIANT ArcLength
CHECK_DEADLOCK FALSE
