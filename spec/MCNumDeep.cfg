SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS DigitsAgree OnlyNumbersParse Canonical Widths Emit
CHECK_DEADLOCK FALSE
