CONSTANTS
 B = 1024
 MaxRecs = 9
 Deltas = {0, 1, 2, 1023}
 Sizes = {0, 1, 5, 1024, 262144, 1048577, 8000000, 16777215}
 Blocks = {0, 1, 255, 256}
 MaxSize = 17000000
 Bof = 16
 Pass = 54
 Cell = 14
 Cases = "writes"
SPECIFICATION Spec
INVARIANT Plain AnyWrites
CHECK_DEADLOCK FALSE
