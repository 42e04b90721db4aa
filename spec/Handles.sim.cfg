CONSTANTS
 MaxOps = 24
 MaxSrc = 12
 Vias = {"any", "xls", "xlsx", "tsv", "csv"}
SPECIFICATION Spec
INVARIANTS Released OneEach
CHECK_DEADLOCK FALSE
