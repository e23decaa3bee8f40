SPECIFICATION Spec
CONSTANTS MaxOuter = 2 MaxInner = 1
INVARIANTS OneStatus Transparent Unaffected Kept FirstStatusStays Emit
CHECK_DEADLOCK FALSE
