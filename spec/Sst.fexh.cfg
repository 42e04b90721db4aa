CONSTANTS
 MaxStrs = 1
 MaxChars = 4
 Chars = {"l", "w", "hi", "lo"}
 Runs = {99}
 Exts = {99}
 MaxRecs = 3
 PLAIN = TRUE
SPECIFICATION Spec
INVARIANT ReaderRecovers
CHECK_DEADLOCK FALSE
