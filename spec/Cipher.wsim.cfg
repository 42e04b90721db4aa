CONSTANTS
 B = 1024
 MaxRecs = 9
 Deltas = {0, 1, 2, 3, 1023}
 Sizes = {0, 1, 2, 4, 8, 100, 700, 1500, 5000}
 Blocks = {0, 1, 2}
 MaxSize = 8224
 Bof = 16
 Pass = 54
 Cell = 14
 Cases = "writes"
SPECIFICATION Spec
INVARIANT Plain AnyWrites
CHECK_DEADLOCK FALSE
