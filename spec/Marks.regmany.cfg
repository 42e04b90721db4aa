CONSTANTS
 WIDE = FALSE
 Span = 2
 NR = 12
 NC = 9
 MaxReg = 24
 MaxLink = 0
 Ordered = FALSE
 Values = {"", "5"}
SPECIFICATION Spec
INVARIANT MarkedRight OthersKept NoGrowth LinkText
CHECK_DEADLOCK FALSE
