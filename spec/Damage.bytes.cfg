CONSTANTS
 MaxRec = 0
 MaxByte = 1
 MaxFaults = 1
 Marks = {0, 255}
 Strangers = {0, 7}
 Kinds = {"shrink", "drop", "double", "stranger", "retype", "swap"}
SPECIFICATION Spec
INVARIANTS Contained Loss
CHECK_DEADLOCK TRUE
