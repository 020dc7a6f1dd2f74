CONSTANTS Emit = FALSE
 MaxLen = 4
SPECIFICATION Spec
VIEW View
INVARIANT Supported
INVARIANT Interval
INVARIANT SameShape
INVARIANT VarNonNegative
INVARIANT SmoothSupported
INVARIANT Counted
PROPERTY Blended
CHECK_DEADLOCK FALSE
