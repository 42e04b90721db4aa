CONSTANTS
 MODE = "text"
 Alphabet = {"x", "NUL", "TAB", "COMMA", "QUOTE", "LF"}
 FieldLen = 4
 MaxLen = 5
 Counts = {}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
