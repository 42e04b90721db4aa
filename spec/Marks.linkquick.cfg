CONSTANTS
 WIDE = FALSE
 Span = 9999
 NR = 1
 NC = 1
 MaxReg = 1
 MaxLink = 1
 Ordered = TRUE
 Values = {"", "5"}
SPECIFICATION Spec
INVARIANT MarkedRight OthersKept NoGrowth LinkText
CHECK_DEADLOCK FALSE
