CONSTANTS
 MODE = "text"
 Alphabet = {"x", "TAB", "COMMA", "QUOTE", "LF", "CR"}
 FieldLen = 4
 MaxLen = 5
 Counts = {}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
