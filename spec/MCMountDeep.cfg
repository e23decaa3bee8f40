SPECIFICATION Spec
CONSTANTS MaxOuter = 2 MaxInner = 2
INVARIANTS OneStatus Transparent Unaffected Kept FirstStatusStays Emit
CHECK_DEADLOCK FALSE
