CONSTANTS
 MaxOps = 2
 MaxSrc = 1
 Vias = {"any", "xls", "xlsx", "tsv", "csv"}
SPECIFICATION Spec
INVARIANTS Released OneEach
CHECK_DEADLOCK FALSE
