SPECIFICATION Spec
CONSTANTS MaxOps = 4 MaxGroups = 2 Excl <- DefaultExcl Emits = "serves"
INVARIANTS ChainsAgree GroupMiddlewareReachesItsRoutesOnly BuiltTablesAreSound Emit
PROPERTY EnginesAreSnapshots
CHECK_DEADLOCK FALSE
