SPECIFICATION Spec
CONSTANTS Mode = "fields" Deep = 1
INVARIANTS Width Separate Frame OrderFree Idles Exact FailsOnly Alike Emit
CHECK_DEADLOCK FALSE
