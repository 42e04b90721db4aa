CONSTANTS
 MODE = "clock"
 LastYear = 9999
 Hours <- HoursF
 Mins <- MinsF
 Secs <- SecsF
 Mss <- MssF
 Jumps <- JumpsC
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
