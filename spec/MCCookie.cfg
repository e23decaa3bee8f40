SPECIFICATION Spec
INVARIANTS ExactlyTheAttributes FirstOfName EscapedIsSafe Emit
CHECK_DEADLOCK FALSE
