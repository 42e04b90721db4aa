CONSTANTS
 WIDE = FALSE
 SIM = FALSE
 Rs = {0, 1}
 Cs = {0, 1}
 MaxOps = 3
 Vals = {"a", "7.0", "", "<-"}
 Fmts = {0, 2}
SPECIFICATION Spec
INVARIANTS Shape Refines Inside
PROPERTY Preserve
CHECK_DEADLOCK FALSE
