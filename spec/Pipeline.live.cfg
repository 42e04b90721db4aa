CONSTANTS
 N = 2
 Cap = 1
 MaxFiles = 2
 MaxSheets = 1
 Rows = {1}
SPECIFICATION Spec
INVARIANTS OnePlace OneBuffer InOrder Together Complete
CHECK_DEADLOCK TRUE
PROPERTIES Ends
