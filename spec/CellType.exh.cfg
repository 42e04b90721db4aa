CONSTANTS
 MODE = "exh"
 Ips <- IpsC
 Fps <- FpsC
 MaxIp = 1
 MaxFp = 0
 FmtPick = 0
SPECIFICATION Spec
INVARIANTS KindOK TruthOK Faithful Idempotent
CHECK_DEADLOCK FALSE
