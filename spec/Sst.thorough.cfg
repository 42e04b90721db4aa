CONSTANTS
 MaxStrs = 2
 MaxChars = 3
 Chars = {"l", "w"}
 Runs = {99, 1}
 Exts = {99, 2}
 MaxRecs = 3
 PLAIN = FALSE
SPECIFICATION Spec
INVARIANT ReaderRecovers
CHECK_DEADLOCK FALSE
