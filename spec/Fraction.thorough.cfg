CONSTANTS
 MODE = "exact"
 Digits = {1, 2, 3}
 Wholes = {0, 1, 7, 41, 999, 65535, 1000000}
 MaxDen = 400
SPECIFICATION Spec
INVARIANTS Agree Bounded
CHECK_DEADLOCK FALSE
