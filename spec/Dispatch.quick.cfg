CONSTANTS
 ALT = FALSE
 MaxOps = 3
 Pris = {0, 1, 7, 12, 20}
 Behaviours = {"accept", "decline", "error"}
 Kinds = {"tsv", "csv", "bad", "missing", "xls"}
SPECIFICATION Spec
INVARIANTS Once Ascending FirstWins
CHECK_DEADLOCK FALSE
