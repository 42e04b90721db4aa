CONSTANTS
 HidBytes = {0, 1, 2, 3, 4, 5, 62, 128, 252, 253, 64, 0}
 MaxSheets = 4
 MaxRecs = 8
 MaxDepth = 3
 MaxOrphans = 2
 Faults = {"none"}
SPECIFICATION Spec
INVARIANTS ReaderFindsOwn TopLevel
CHECK_DEADLOCK FALSE
