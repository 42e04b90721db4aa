CONSTANTS
 WIDE = FALSE
 Span = 9999
 NR = 6
 NC = 6
 MaxReg = 6
 MaxLink = 0
 Ordered = FALSE
 Values = {"", "5", "word"}
SPECIFICATION Spec
INVARIANT MarkedRight OthersKept NoGrowth LinkText
CHECK_DEADLOCK FALSE
