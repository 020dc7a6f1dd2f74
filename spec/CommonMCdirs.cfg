CONSTANTS Step = 750
 Ress = {1, 3, 6, 12, 30}
SPECIFICATION Spec
INVARIANT WrapInRange
INVARIANT WrapSameRay
INVARIANT WrapIdempotent
INVARIANT BinRepresentative
INVARIANT FcuHistConsistent




CHECK_DEADLOCK FALSE
