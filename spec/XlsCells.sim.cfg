CONSTANTS
 NR = 4
 NC = 4
 MaxOps = 9
 MaxDigits = 9
 Styles = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40}
 DS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
SPECIFICATION Spec
INVARIANT LastWrites
CHECK_DEADLOCK FALSE
