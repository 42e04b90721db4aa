CONSTANTS
 Books <- Books3
 SheetNames = {"A", "B"}
 SheetPaths <- Paths3
 AuxPaths <- Aux2
 RelIds = {"r1", "r2"}
 MaxSheets = 2
 MaxOrphans = 0
 Spells = {"near", "abs"}
 Customs = {}
 Fmts = {0}
 MaxXf = 0
 MaxBase = 0
 Applies = {"none"}
 Modes = {"none"}
 Dates <- Date1
 AuxIds = {"s1", "s2"}
 AnyOrder = TRUE
SPECIFICATION Spec
INVARIANTS Arrives Switched
CHECK_DEADLOCK FALSE
