CONSTANTS
 Gaps = {0, 1}
 MaxRows = 3
 MaxCells = 3
 Kinds = {"n", "empty"}
SPECIFICATION Spec
INVARIANT Placed
CHECK_DEADLOCK FALSE
