CONSTANTS
 MODE = "hist"
 MaxOps = 3
 RegIds = {0, 2, 14, 164, 165}
 QueryIds = {0, 2, 14, 164, 165, 166}
 Ips = {}
 Fps = {}
 MaxIp = 0
 MaxFp = 0
SPECIFICATION Spec
INVARIANTS BuiltinsFixed
PROPERTIES FirstStays
CHECK_DEADLOCK FALSE
