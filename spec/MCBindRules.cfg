SPECIFICATION Spec
CONSTANTS Mode = "rules" Deep = 0
INVARIANTS Verdict SameVerdict Inside EachElement Emit
CHECK_DEADLOCK FALSE
