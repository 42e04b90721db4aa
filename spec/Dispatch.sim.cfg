CONSTANTS
 ALT = TRUE
 MaxOps = 20
 Pris <- WidePris
 Behaviours = {"accept", "decline", "error", "tsv", "csv", "xlsx"}
 Kinds = {"xls", "xlsx", "tsv", "csv", "both", "bad", "empty", "missing"}
SPECIFICATION Spec
INVARIANTS Once Ascending FirstWins
CHECK_DEADLOCK FALSE
