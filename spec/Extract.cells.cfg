CONSTANTS
 Kinds = {"xlsx"}
 MaxFiles = 1
 MaxSheets = 1
 MaxRows = 1
 MaxCols = 2
 Palette = {"nil","x","sp","xssy","sx","xs","xny","rn","xty","t","ssnx","xnst","n","xrny","ee"}
 Copies = {1}
 Times = {1}
 Cpus = {4}
 Cmds = {"grate2tsv"}
SPECIFICATION Spec
INVARIANTS CleanLaws Kept
CHECK_DEADLOCK FALSE
