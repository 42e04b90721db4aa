CONSTANTS
 WIDE = TRUE
 SIM = TRUE
 Rs = {0, 1, 2, 3, 4, 6, 7, 11, 16, 25, 64, 300}
 Cs = {0, 1, 2, 3, 5, 9, 17, 40, 260}
 MaxOps = 24
 Vals = {"a", "b", "#N/A", "<-", "<|", "^|", "^-", "1", "2", "7.0", "TRUE", ""}
 Fmts = {0, 1, 2, 14, 49, 164}
SPECIFICATION Spec
INVARIANT Inside
PROPERTY Preserve
CHECK_DEADLOCK FALSE
