CONSTANTS
 MaxStrs = 3
 MaxChars = 12
 Chars = {"l", "w", "hi", "lo", "L", "W"}
 Runs = {99, 1, 40, 500, 16383, 16384, 16385, 20000, 65535}
 Exts = {99, 2, 60, 8300, 65535, 65536, 70001}
 MaxRecs = 90
 PLAIN = FALSE
SPECIFICATION Spec
INVARIANT ReaderRecovers
CHECK_DEADLOCK FALSE
