CONSTANTS
 MODE = "many"
 Digits = {3, 4}
 Wholes = {0, 12}
 MaxDen = 9999
SPECIFICATION Spec
INVARIANTS Agree Bounded
CHECK_DEADLOCK FALSE
