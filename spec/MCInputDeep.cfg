SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS InOrder NoMore AllOnce BrokenIsTold OnePerName AnyCase Emit
CHECK_DEADLOCK FALSE
