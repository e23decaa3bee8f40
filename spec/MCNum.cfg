SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS DigitsAgree OnlyNumbersParse Canonical Widths Emit
CHECK_DEADLOCK FALSE
