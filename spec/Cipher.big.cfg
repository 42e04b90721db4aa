CONSTANTS
 B = 1024
 MaxRecs = 110
 Deltas = {0, 1, 3, 4, 5, 1020, 1023}
 Sizes = {8000, 8224}
 Blocks = {6, 7}
 MaxSize = 8224
 Bof = 16
 Pass = 54
 Cell = 14
 Cases = "stream"
SPECIFICATION Spec
INVARIANT Plain AnyWrites
CHECK_DEADLOCK FALSE
