CONSTANTS
 MaxStrs = 6
 MaxChars = 6
 Chars = {"l", "w", "hi", "lo", "L", "W"}
 Runs = {99, 0, 1, 2, 3}
 Exts = {99, 0, 1, 3, 5}
 MaxRecs = 24
 PLAIN = FALSE
SPECIFICATION Spec
INVARIANT ReaderRecovers
CHECK_DEADLOCK FALSE
