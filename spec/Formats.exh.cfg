CONSTANTS
 MODE = "exh"
 MaxOps = 0
 RegIds = {}
 QueryIds = {}
 Ips <- IpsC
 Fps <- FpsC
 MaxIp = 0
 MaxFp = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
