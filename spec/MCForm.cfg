SPECIFICATION Spec
CONSTANTS MaxPairs = 2
INVARIANTS DefaultOnlyWhenAbsent BodyBeforeQuery QueryBeforeMulti BodyOnlyWithMethod NothingLost Emit
CHECK_DEADLOCK FALSE
