CONSTANTS
 MaxEntries = 3
 Names = {1, 2}
 Slots = {1, 2, 3, 4}
 Depth = 2
 Twists = FALSE
SPECIFICATION Spec
INVARIANT TreesOK NamesOK TwistOK
CHECK_DEADLOCK FALSE
