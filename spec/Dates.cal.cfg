CONSTANTS
 MODE = "cal"
 LastYear = 9999
 Hours = {}
 Mins = {}
 Secs = {}
 Mss = {}
 Jumps = {}
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
