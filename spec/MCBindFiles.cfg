SPECIFICATION Spec
CONSTANTS Mode = "files" Deep = 2
INVARIANTS Arrive TextOnly Refused FileErr GinFiles Emit
CHECK_DEADLOCK FALSE
