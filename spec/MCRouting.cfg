SPECIFICATION Spec
CONSTANTS MaxRoutes = 2  PatLen = 2  PathLen = 3
INVARIANTS Agree NotFoundOnlyIfNothingFits StaticConsistent
PROPERTY Monotone
CHECK_DEADLOCK FALSE
INVARIANT Emit
