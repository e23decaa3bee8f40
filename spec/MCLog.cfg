SPECIFICATION Spec
CONSTANTS N = 4 K = 1 Kinds = {"user", "recovery", "logger", "logoff"}
INVARIANTS Transparent Truthful Emit
CHECK_DEADLOCK FALSE
