CONSTANTS
 Gaps = {0, 1, 2, 25}
 MaxRows = 5
 MaxCells = 10
 Kinds = {"n", "s", "inlineStr", "str", "b", "empty", "none"}
SPECIFICATION Spec
INVARIANT Placed
CHECK_DEADLOCK FALSE
