SPECIFICATION Spec
CONSTANTS MaxOps = 4 Names = {"a", "b"} Reqs = {"1", "2"}
INVARIANTS HoldsFirst ReadsWhatWasSet TypedOrPanic Emit
PROPERTY FirstValueStays
CHECK_DEADLOCK FALSE
