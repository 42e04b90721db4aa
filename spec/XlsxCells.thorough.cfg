CONSTANTS
 RowSet = {0}
 ColSet = {0, 2}
 MaxCells = 1
 MaxStr = 0
 MaxRuns = 2
 Styles = {0, 2}
 DS = {0, 7}
 MaxDigits = 3
 Types = {"n", "b", "str", "inlineStr", "e", "none", "empty"}
 Hows = {"joined", "comment", "mixed"}
 Atoms = {" x ", "12"}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
