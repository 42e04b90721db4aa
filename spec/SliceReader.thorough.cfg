SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
  MaxLen = 4
  MaxOps = 9
  Slack = 2
VIEW View
CONSTRAINT Bound
INVARIANTS TypeOK Refines
PROPERTY NoMove
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
