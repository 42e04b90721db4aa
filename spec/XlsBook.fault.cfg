CONSTANTS
 HidBytes = {0, 1, 2, 3, 4, 5, 62, 128, 252, 253, 64, 0}
 MaxSheets = 4
 MaxRecs = 4
 MaxDepth = 3
 MaxOrphans = 2
 Faults = {"oldversion", "oldyear", "sheetversion", "dangling", "book5", "nobof", "biff5"}
SPECIFICATION Spec
INVARIANTS ReaderFindsOwn TopLevel
CHECK_DEADLOCK FALSE
