SPECIFICATION Spec
CONSTANTS N = 4 K = 2 Acts <- AllActs Kinds = {"user", "recovery"}
INVARIANTS AtMostOnceInOrder Onion NothingLeftOut OneStatus ToldTruth Recovered NoLeakWhenStable NoneAgain Emit
PROPERTY CutByResponse
CHECK_DEADLOCK FALSE
