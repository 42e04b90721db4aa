CONSTANTS
 MODE = "text"
 Alphabet = {"x", "y", "SP", "E9", "SEMI", "xFF", "VT", "NBSP", "TAB", "COMMA", "QUOTE", "LF", "CR"}
 FieldLen = 4
 MaxLen = 24
 Counts = {}
SPECIFICATION Spec
INVARIANT WrittenBack
CHECK_DEADLOCK FALSE
