CONSTANTS Emit = FALSE
 MaxLen = 5
SPECIFICATION Spec
VIEW View
INVARIANT Square
INVARIANT BlendBounded
INVARIANT BlendEnds
CHECK_DEADLOCK FALSE
