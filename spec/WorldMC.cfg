SPECIFICATION Spec
CONSTANTS
  PLACES = {"a", "b"}
  MODELS = {"/m", "/n"}
  FLAWS = {"unset", "none", "nofile", "scalar", "syntax", "missing", "word"}
  OBJECTS = 1
INVARIANTS Numbered AllOrNothing NeverHalf FirstWins OwnLast
CHECK_DEADLOCK FALSE
