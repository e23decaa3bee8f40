CONSTANTS
 MaxSegs = 4
 Alphabet = {"p", "f", "d", "e", "", "..", ".", "index.html"}
SPECIFICATION Spec
INVARIANTS NothingElse UnderPrefix Plain OneRedirect PrefixIsMoved Emit
CHECK_DEADLOCK FALSE
