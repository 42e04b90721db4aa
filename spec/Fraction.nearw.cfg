CONSTANTS
 MODE = "near"
 Digits = {1, 2, 3, 4}
 Wholes = {0, 9999}
 MaxDen = 3
SPECIFICATION Spec
INVARIANTS Agree Bounded Nearby
CHECK_DEADLOCK FALSE
