CONSTANTS Emit = FALSE
 Good = TRUE
 MaxLen = 14
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT GoodLanding
