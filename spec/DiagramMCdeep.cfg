SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
Trans = {"NEXT1", "NEXT2", "ERROR"}
MaxMaps = 2
INVARIANTS Faithful NothingElse
CHECK_DEADLOCK FALSE
