CONSTANTS
 B = 1024
 MaxRecs = 1
 Deltas = {0}
 Sizes = {0}
 Blocks = {0}
 MaxSize = 10
 Bof = 16
 Pass = 54
 Cell = 14
 Cases = "faults"
SPECIFICATION Spec
INVARIANT Plain AnyWrites
CHECK_DEADLOCK FALSE
