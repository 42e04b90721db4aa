CONSTANTS
 MODE = "hist"
 MaxOps = 20
 RegIds = {0, 1, 5, 9, 14, 44, 48, 49, 63, 80, 81, 82, 163, 164, 165, 166, 167, 65535}
 QueryIds = {0, 1, 5, 9, 14, 22, 44, 45, 46, 48, 49, 58, 63, 81, 82, 163, 164, 165, 166, 167, 65535}
 Ips = {}
 Fps = {}
 MaxIp = 0
 MaxFp = 0
SPECIFICATION Spec
INVARIANTS BuiltinsFixed
PROPERTIES FirstStays
CHECK_DEADLOCK FALSE
