CONSTANTS
 Parts = 100
 MaxHarm = 1
SPECIFICATION Spec
INVARIANTS NotText Own Short Covered
CHECK_DEADLOCK FALSE
