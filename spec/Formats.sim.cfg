CONSTANTS
 MODE = "sim"
 MaxOps = 0
 RegIds = {}
 QueryIds = {}
 Ips = {}
 Fps = {}
 MaxIp = 9
 MaxFp = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
