CONSTANTS
 MODE = "inst"
 LastYear = 9999
 Hours <- H24
 Mins <- S60
 Secs <- S60
 Mss <- MssC
 Jumps <- JumpsC
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
