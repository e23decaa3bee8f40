SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxGroups = 2 Excl <- DefaultExcl Emits = "lists"
INVARIANTS ChainsAgree GroupMiddlewareReachesItsRoutesOnly BuiltTablesAreSound Emit
PROPERTY EnginesAreSnapshots
CHECK_DEADLOCK FALSE
