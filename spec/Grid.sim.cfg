CONSTANTS
 WIDE = FALSE
 SIM = TRUE
 Rs = {0, 1, 2, 3}
 Cs = {0, 1, 2, 3}
 MaxOps = 14
 Vals = {"a", "b", "#N/A", "<-", "<|", "^|", "^-", "1", "2", "7.0", "TRUE", ""}
 Fmts = {0, 1, 2, 14, 49, 164}
SPECIFICATION Spec
INVARIANTS Shape Refines Inside
PROPERTY Preserve
CHECK_DEADLOCK FALSE
