CONSTANTS
 WIDE = FALSE
 Span = 9999
 NR = 2
 NC = 3
 MaxReg = 2
 MaxLink = 0
 Ordered = TRUE
 Values = {"", "5"}
SPECIFICATION Spec
INVARIANT MarkedRight OthersKept NoGrowth LinkText
CHECK_DEADLOCK FALSE
