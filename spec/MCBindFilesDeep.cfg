SPECIFICATION Spec
CONSTANTS Mode = "files" Deep = 3
INVARIANTS Arrive TextOnly Refused FileErr GinFiles Emit
CHECK_DEADLOCK FALSE
