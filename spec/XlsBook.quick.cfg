CONSTANTS
 HidBytes = {0, 1, 2}
 MaxSheets = 2
 MaxRecs = 2
 MaxDepth = 2
 MaxOrphans = 0
 Faults = {"none"}
SPECIFICATION Spec
INVARIANTS ReaderFindsOwn TopLevel
CHECK_DEADLOCK FALSE
