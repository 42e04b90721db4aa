CONSTANTS
 MODE = "exh"
 MaxIp = 1
 MaxFp = 0
SPECIFICATION Spec
INVARIANTS Laws Chain
CHECK_DEADLOCK FALSE
