SPECIFICATION Spec
CONSTANTS Mode = "select" Deep = 0
INVARIANTS Chart OnlyChosen Emit
CHECK_DEADLOCK FALSE
