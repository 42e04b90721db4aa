CONSTANTS
 MaxStrs = 1
 MaxChars = 8
 Chars = {"l", "w", "hi", "lo", "L", "W"}
 Runs = {99}
 Exts = {99}
 MaxRecs = 10
 PLAIN = TRUE
SPECIFICATION Spec
INVARIANT ReaderRecovers
CHECK_DEADLOCK FALSE
