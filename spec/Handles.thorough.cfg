CONSTANTS
 MaxOps = 3
 MaxSrc = 2
 Vias = {"any", "xls", "xlsx", "tsv", "csv"}
SPECIFICATION Spec
INVARIANTS Released OneEach
CHECK_DEADLOCK FALSE
