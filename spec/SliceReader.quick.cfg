SPECIFICATION Spec
CONSTANTS
  MaxPieces = 3
  MaxLen = 3
  MaxOps = 6
  Slack = 2
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK Refines
PROPERTY NoMove
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
