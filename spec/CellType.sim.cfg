CONSTANTS
 MODE = "sim"
 Ips = {}
 Fps = {}
 MaxIp = 10
 MaxFp = 5
 FmtPick = 0
SPECIFICATION Spec
INVARIANTS KindOK TruthOK Faithful Idempotent
CHECK_DEADLOCK FALSE
