CONSTANTS
 MODE = "sim"
 MaxIp = 9
 MaxFp = 5
SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
