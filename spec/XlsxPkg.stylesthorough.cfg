CONSTANTS
 Books <- Books1
 SheetNames = {"A"}
 SheetPaths <- Path1
 AuxPaths <- Aux2
 RelIds = {"rId1"}
 MaxSheets = 1
 MaxOrphans = 0
 Spells = {"near"}
 Customs = {170}
 Fmts = {0, 2, 14}
 MaxXf = 2
 MaxBase = 1
 Applies = {"none", "true", "false", "0"}
 Modes = {"none", "true"}
 Dates <- Date1
 AuxIds = {"s1", "s2"}
 AnyOrder = FALSE
SPECIFICATION Spec
INVARIANTS Arrives Switched
CHECK_DEADLOCK FALSE
