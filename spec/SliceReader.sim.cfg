SPECIFICATION SpecSim
CONSTANTS
  MaxPieces = 5
  MaxLen = 6
  MaxOps = 14
  Slack = 2
INVARIANTS TypeOK Refines
CHECK_DEADLOCK FALSE
