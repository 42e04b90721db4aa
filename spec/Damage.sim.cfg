CONSTANTS
 MaxRec = 3
 MaxByte = 2
 MaxFaults = 4
 Marks = {0, 1, 8, 16, 60, 127, 128, 255}
 Strangers = {0, 7, 100, 8224}
 Kinds = {"shrink", "drop", "double", "stranger", "retype", "swap"}
SPECIFICATION Spec
INVARIANTS Contained
CHECK_DEADLOCK TRUE
