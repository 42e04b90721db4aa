CONSTANTS
 Files = {"xls1", "xls2"}
 MaxSrc = 2
 MaxCol = 2
 MaxOps = 5
 BadKinds = {}
SPECIFICATION Spec
INVARIANTS OwnRecords OwnCells
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
