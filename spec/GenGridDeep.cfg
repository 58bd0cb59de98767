SPECIFICATION GSpec
CONSTANTS Limit = 300000
 Sweep = 1500
INVARIANTS Complete Single
CHECK_DEADLOCK FALSE
