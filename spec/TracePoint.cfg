SPECIFICATION Spec
INVARIANT Blank
CHECK_DEADLOCK TRUE
