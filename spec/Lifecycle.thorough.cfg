CONSTANTS
 Files = {"xls1", "xls2"}
 MaxSrc = 2
 MaxCol = 2
 MaxOps = 6
 BadKinds = {"trunc"}
SPECIFICATION Spec
INVARIANTS OwnRecords OwnCells
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
