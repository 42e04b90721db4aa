CONSTANTS
 MODE = "near"
 Digits = {1, 2, 3, 4}
 Wholes = {0, 12}
 MaxDen = 17
SPECIFICATION Spec
INVARIANTS Agree Bounded Nearby
CHECK_DEADLOCK FALSE
