SPECIFICATION Spec
CONSTANTS Kids = 2
 Expand = 3
 Costs = {0, 100, 9000}
 ReachOf = 18000
INVARIANTS Rooted Links OneStep Totals Apart Bounded Once OnlyClosedHaveChildren Within PathIsBranch
PROPERTY Cheapest
CHECK_DEADLOCK FALSE
