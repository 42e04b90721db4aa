CONSTANTS
 Kinds = {"xls", "xlsx", "sheet", "tsv", "csv"}
 MinRecs = 0
 MaxRecs = 2
 MaxCols = 2
 SheetCells = {"num", "blank"}
 TextCells = {"ten", "gap"}
 Dests = {}
 MaxOps = 4
 Pads = {0, 1}
 ScanFull = FALSE
SPECIFICATION Spec
INVARIANT InOrder
PROPERTIES Moves Same
CHECK_DEADLOCK FALSE
