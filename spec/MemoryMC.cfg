CONSTANTS Emit = FALSE
 MaxSteps = 5
 Dirs = {0, 1, 2, 3, 4}
SPECIFICATION Spec
VIEW View
INVARIANT NeverStale
INVARIANT SeenIsFresh
PROPERTY Persistent
PROPERTY NoGhosts
PROPERTY Forgotten
CHECK_DEADLOCK FALSE
