CONSTANTS
 MODE = "count"
 Alphabet = {}
 FieldLen = 4
 MaxLen = 0
 Counts = {0, 1, 2, 5, 6, 10, 11, 12, 25, 26, 27, 39, 40, 43, 44, 45, 60, 104, 105}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
