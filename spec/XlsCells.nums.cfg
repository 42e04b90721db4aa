CONSTANTS
 NR = 1
 NC = 1
 MaxOps = 1
 MaxDigits = 3
 Styles = {0, 1, 2, 5, 8, 9}
 DS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
SPECIFICATION Spec
INVARIANT LastWrites
CHECK_DEADLOCK FALSE
