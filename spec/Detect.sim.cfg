CONSTANTS
 Parts = 400
 MaxHarm = 4
SPECIFICATION Spec
INVARIANTS NotText Own Short Covered
CHECK_DEADLOCK FALSE
