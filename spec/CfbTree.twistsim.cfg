CONSTANTS
 MaxEntries = 9
 Names = {1, 2, 3, 4, 5}
 Slots = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Depth = 2
 Twists = TRUE
SPECIFICATION Spec
INVARIANT TreesOK NamesOK TwistOK
CHECK_DEADLOCK FALSE
