CONSTANTS
 MaxFaults = 4
 Ops = {"gone", "flip", "torn", "cut", "noattr", "attr", "text", "drop", "double", "unwrap", "rename", "swap", "lostend"}
 Names = {"zzz", "c", "v", "t", "row", "si", "rPh", "xf", "cellXfs", "cellStyleXfs", "sheet", "Relationship", "dimension", "mergeCell", "hyperlink"}
 Sorts = {"s", "b", "e", "str", "inlineStr", "n", "d"}
SPECIFICATION Spec
INVARIANTS Contained
CHECK_DEADLOCK TRUE
