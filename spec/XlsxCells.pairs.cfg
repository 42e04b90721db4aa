CONSTANTS
 RowSet = {0}
 ColSet = {0, 1}
 MaxCells = 2
 MaxStr = 0
 MaxRuns = 1
 Styles = {0}
 DS = {7}
 MaxDigits = 1
 Types = {"n", "b", "str", "none", "empty"}
 Hows = {"ref"}
 Atoms = {" x "}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
