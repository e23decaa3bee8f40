SPECIFICATION Spec
CONSTANTS MaxList = 2
INVARIANTS GrantsOnlyConfigured ConfiguredIsGranted NoneNoGrant Emit
CHECK_DEADLOCK FALSE
