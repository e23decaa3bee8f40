CONSTANTS
 MaxOps = 2
 Wide = FALSE
SPECIFICATION Spec
INVARIANTS FirstDecides AskedStatus OneType HeadsArrive BodyInOrder FailedLeavesNothing RangeIsPart Unchanged304 NameIsOne Emit
CHECK_DEADLOCK FALSE
