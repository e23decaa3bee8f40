SPECIFICATION Spec
CONSTANTS N = 3 K = 2 Acts <- AllActs Kinds = {"user", "recovery"}
INVARIANTS AtMostOnceInOrder Onion NothingLeftOut OneStatus ToldTruth Recovered NoLeakWhenStable NoneAgain Emit
PROPERTY CutByResponse
CHECK_DEADLOCK FALSE
