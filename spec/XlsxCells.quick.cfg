CONSTANTS
 RowSet = {0}
 ColSet = {0, 2}
 MaxCells = 1
 MaxStr = 0
 MaxRuns = 1
 Styles = {0, 2}
 DS = {7}
 MaxDigits = 2
 Types = {"n", "b", "str", "inlineStr", "e", "none", "empty"}
 Hows = {"joined", "comment"}
 Atoms = {" x ", "12"}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
