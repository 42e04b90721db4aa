CONSTANTS
 RowSet = {0}
 ColSet = {1}
 MaxCells = 1
 MaxStr = 2
 MaxRuns = 1
 Styles = {2}
 DS = {7}
 MaxDigits = 1
 Types = {"s"}
 Hows = {"joined", "cdata"}
 Atoms = {" x ", "12"}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
