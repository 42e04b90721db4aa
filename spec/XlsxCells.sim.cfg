CONSTANTS
 RowSet = {0, 1, 2, 9, 10}
 ColSet = {0, 1, 2, 25, 26, 27, 51, 52, 701, 702}
 MaxCells = 9
 MaxStr = 6
 MaxRuns = 4
 Styles = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40}
 DS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 MaxDigits = 8
 Types = {"n", "b", "s", "str", "inlineStr", "e", "none", "empty"}
 Hows = {"joined", "comment", "cdata", "ref", "mixed"}
 Atoms = {"ab", " x ", "{u}", "a<b&c>", "12", "5", "0", "TRUE", "q", "{e1}", "{e2}", "{e3}", "{e4}", "{e5}"}
SPECIFICATION Spec
INVARIANT Recovers
CHECK_DEADLOCK FALSE
