CONSTANTS
 MaxRec = 1
 MaxByte = 0
 MaxFaults = 1
 Marks = {0, 255}
 Strangers = {8225, 65531, 65532, 65535}
 Kinds = {"stranger"}
SPECIFICATION Spec
INVARIANTS Contained Loss
CHECK_DEADLOCK TRUE
