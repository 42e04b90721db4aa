CONSTANTS
 Kinds = {"xls", "xlsx", "sheet", "tsv", "csv"}
 MinRecs = 2
 MaxRecs = 7
 MaxCols = 5
 SheetCells = {"num", "int", "pct", "yes", "no", "text", "digits", "when", "blank", "deep", "neg", "vast", "words"}
 TextCells = {"word", "ten", "one", "half", "true", "n", "gap", "wide", "deep", "tenth", "vast", "exp", "yes", "y", "t", "zero"}
 Dests = {"string", "int64", "int", "float64", "bool", "time", "uint8", "value"}
 MaxOps = 30
 Pads = {0, 1}
 ScanFull = TRUE
SPECIFICATION Spec
INVARIANT InOrder
CHECK_DEADLOCK FALSE
