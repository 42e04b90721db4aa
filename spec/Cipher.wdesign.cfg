CONSTANTS
 B = 8
 MaxRecs = 5
 Deltas = {0, 1, 2}
 Sizes = {0, 1, 3, 5}
 Blocks = {0, 1}
 MaxSize = 20
 Bof = 3
 Pass = 2
 Cell = 3
 Cases = "writes"
SPECIFICATION Spec
INVARIANT Plain AnyWrites
CHECK_DEADLOCK FALSE
