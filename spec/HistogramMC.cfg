CONSTANTS Fine = 30
 Emit = FALSE
 MaxLen = 4
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT DownUndoesUp
INVARIANT MeanBounded
INVARIANT WrapConsistent
CHECK_DEADLOCK FALSE
