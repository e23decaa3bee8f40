CONSTANTS
 MaxSegs = 3
 Alphabet = {"p", "f", "d", "e", "", ".."}
SPECIFICATION Spec
INVARIANTS NothingElse UnderPrefix Plain OneRedirect PrefixIsMoved Emit
CHECK_DEADLOCK FALSE
