CONSTANTS
 MODE = "write"
 Alphabet = {"x", "y", "SP", "E9", "xFF", "VT", "NBSP", "BIG", "SEMI", "TAB", "COMMA", "QUOTE", "LF"}
 FieldLen = 4
 MaxLen = 12
 Counts = {}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
