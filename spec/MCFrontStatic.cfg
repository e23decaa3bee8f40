SPECIFICATION Spec
CONSTANTS
  Two = "static"
  MaxRoutes = 2
  PathLen = 2
  Pats = {"/", "/a", "/a/b", "/:x", "/a/*", "/*", "/a//b"}
  Ms = {"GET", "POST", "HEAD", "ANY"}
  Exclusions <- SomeExclusions
INVARIANTS StaticUnobservable GateFirst Isolated UnmatchedRunsNotFound FullPathFits Emit
CHECK_DEADLOCK FALSE
