SPECIFICATION Spec
CONSTANTS Probes = TRUE
 Dense = FALSE
INVARIANTS ReadsClock LastDay Weekday Emit
CHECK_DEADLOCK FALSE
