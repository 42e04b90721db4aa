CONSTANTS
 MaxRec = 0
 MaxByte = 1
 MaxFaults = 1
 Marks = {0, 1, 2, 4, 8, 16, 64, 127, 128, 254, 255}
 Strangers = {0, 7}
 Kinds = {"shrink", "drop", "double", "stranger", "retype", "swap"}
SPECIFICATION Spec
INVARIANTS Contained Loss
CHECK_DEADLOCK TRUE
