CONSTANTS
 Books <- Books3
 SheetNames = {"A", "a", "Sheet1", "x & <y>", "{u}", "Sheet 2"}
 SheetPaths <- Paths6
 AuxPaths <- Aux6
 RelIds = {"rId1", "rId2", "rId3", "rId10", "R4a", "R4A", "x", "rId01"}
 MaxSheets = 4
 MaxOrphans = 2
 Spells = {"near", "abs", "far", "dot", "loop"}
 Customs = {2, 5, 14, 41, 82, 100, 163, 164, 170, 199, 200, 32768, 40000}
 Fmts = {0, 1, 2, 4, 9, 10, 14, 15, 20, 22, 46, 37, 39, 11, 48}
 MaxXf = 8
 MaxBase = 3
 Applies = {"none", "1", "true", "0", "false"}
 Modes = {"none", "0", "1", "true", "false"}
 Dates <- Date4
 AuxIds = {"rId1", "rId2", "rId3", "rId10", "R4a", "R4A", "x", "rId01"}
 AnyOrder = TRUE
SPECIFICATION Spec
INVARIANTS Arrives Switched
CHECK_DEADLOCK FALSE
