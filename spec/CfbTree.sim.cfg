CONSTANTS
 MaxEntries = 12
 Names = {1, 2, 3, 4, 5, 6, 7}
 Slots = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
 Depth = 3
 Twists = FALSE
SPECIFICATION Spec
INVARIANT TreesOK NamesOK TwistOK
CHECK_DEADLOCK FALSE
