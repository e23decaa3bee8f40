SPECIFICATION Spec
CONSTANTS N = 3 K = 2 Acts <- ExtActs Kinds = {"user", "recovery"}
INVARIANTS AtMostOnceInOrder Onion NothingLeftOut OneStatusX ToldTruthX Recovered NoLeakWhenStable NoneAgain Emit
PROPERTIES CutByResponse TakenIsTaken
CHECK_DEADLOCK FALSE
