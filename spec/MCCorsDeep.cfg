SPECIFICATION Spec
CONSTANTS MaxList = 3
INVARIANTS GrantsOnlyConfigured ConfiguredIsGranted NoneNoGrant Emit
CHECK_DEADLOCK FALSE
