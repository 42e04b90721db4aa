CONSTANTS
 MODE = "exact"
 Digits = {1, 2}
 Wholes = {0, 1, 41}
 MaxDen = 99
SPECIFICATION Spec
INVARIANTS Agree Bounded
CHECK_DEADLOCK FALSE
