SPECIFICATION Spec
CONSTANTS MaxLen = 5
Turning = 20
Box <- Flat
INVARIANTS Faithful Stable Kept Cheaper Corner YawsEnd
CHECK_DEADLOCK FALSE
