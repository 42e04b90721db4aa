CONSTANTS
 Files = {"xls1", "xls2", "xlsx1", "xlsx2", "csv1", "tsv1", "tsv2"}
 MaxSrc = 6
 MaxCol = 12
 MaxOps = 60
 BadKinds = {"trunc", "garbage", "cutzip", "badrec", "missing"}
SPECIFICATION Spec
INVARIANTS OwnRecords OwnCells
CHECK_DEADLOCK FALSE
