CONSTANTS
 NR = 1
 NC = 2
 MaxOps = 2
 MaxDigits = 1
 Styles = {0, 2}
 DS = {0, 7}
SPECIFICATION Spec
INVARIANT LastWrites
CHECK_DEADLOCK FALSE
