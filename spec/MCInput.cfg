SPECIFICATION Spec
CONSTANTS MaxOps = 2
INVARIANTS InOrder NoMore AllOnce BrokenIsTold OnePerName AnyCase Emit
CHECK_DEADLOCK FALSE
