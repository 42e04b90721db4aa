CONSTANTS
 MODE = "write"
 Alphabet = {"x", "COMMA", "QUOTE", "LF"}
 FieldLen = 2
 MaxLen = 2
 Counts = {}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
