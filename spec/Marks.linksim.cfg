CONSTANTS
 WIDE = TRUE
 Span = 9999
 NR = 4
 NC = 5
 MaxReg = 3
 MaxLink = 5
 Ordered = FALSE
 Values = {"", "5", "word"}
SPECIFICATION Spec
INVARIANT MarkedRight OthersKept NoGrowth LinkText
CHECK_DEADLOCK FALSE
