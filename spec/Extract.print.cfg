CONSTANTS
 Kinds = {"xls","xlsx","csv","tsv","missing","garbage","cut"}
 MaxFiles = 6
 MaxSheets = 3
 MaxRows = 5
 MaxCols = 4
 Palette = {"nil","x","sp","xssy","sx","xs","xny","rn","xty","t","ssnx","xnst","n","xrny","ee"}
 Copies = {1,2,3,20}
 Times = {1,90}
 Cpus = {1,2,3,4,8}
 Cmds = {"grater"}
SPECIFICATION Spec
INVARIANTS CleanLaws Kept
CHECK_DEADLOCK FALSE
