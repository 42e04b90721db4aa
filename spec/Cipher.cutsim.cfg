CONSTANTS
 B = 1024
 MaxRecs = 6
 Deltas = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 1015, 1017, 1020, 1021, 1022, 1023}
 Sizes = {0, 1, 2, 8, 40, 100, 333, 700, 1500, 8000}
 Blocks = {0, 1, 2, 3, 7}
 MaxSize = 8224
 Bof = 16
 Pass = 54
 Cell = 14
 Cases = "cut"
SPECIFICATION Spec
INVARIANT Plain AnyWrites CutPlain
CHECK_DEADLOCK FALSE
