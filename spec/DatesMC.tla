---------------------------- MODULE DatesMC ----------------------------
EXTENDS Dates
H24 == 0..23
S60 == 0..59
MssC == {0, 100, 499, 500, 501, 900, 999, 1, 7}
JumpsC == {1, 2, 3, 12, 13, 48, 120, 1200, 4800}
HoursF == {0, 1, 9, 11, 12, 13, 23}
MinsF == {0, 5, 59}
SecsF == {0, 9, 59}
MssF == {0, 999}
=============================================================================
