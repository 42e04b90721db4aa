CONSTANTS
 Kinds = {"sheet", "csv", "tsv"}
 MinRecs = 1
 MaxRecs = 1
 MaxCols = 2
 SheetCells = {"num", "blank", "yes"}
 TextCells = {"ten", "word"}
 Dests = {"string", "float64", "uint8"}
 MaxOps = 2
 Pads = {0, 1}
 ScanFull = TRUE
SPECIFICATION Spec
INVARIANT InOrder
PROPERTIES Moves Same
CHECK_DEADLOCK FALSE
