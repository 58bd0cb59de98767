SPECIFICATION Spec
CONSTANTS Probes = TRUE
 Dense = TRUE
INVARIANTS ReadsClock LastDay Weekday Emit
CHECK_DEADLOCK FALSE
