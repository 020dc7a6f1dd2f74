CONSTANTS Step = 375
 Ress = {1, 3, 6, 12, 30}
SPECIFICATION Spec





INVARIANT FovRotation
INVARIANT FovSymmetric
INVARIANT FullCircleSeesAll
INVARIANT ScaleRange
CHECK_DEADLOCK FALSE
