CONSTANTS
 Files = {"xlsx1", "tsv2"}
 MaxSrc = 2
 MaxCol = 2
 MaxOps = 6
 BadKinds = {}
SPECIFICATION Spec
INVARIANTS OwnRecords OwnCells
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
