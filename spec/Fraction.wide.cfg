CONSTANTS
 MODE = "few"
 Digits = {1, 2}
 Wholes = {9999, 1234567}
 MaxDen = 99
SPECIFICATION Spec
INVARIANTS Agree Bounded
CHECK_DEADLOCK FALSE
