CONSTANTS
 RowSet = {0}
 ColSet = {1}
 MaxCells = 1
 MaxStr = 1
 MaxRuns = 2
 Styles = {2}
 DS = {7}
 MaxDigits = 1
 Types = {"s"}
 Hows = {"joined", "cdata"}
 Atoms = {" x ", "12", "{e1}"}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
