SPECIFICATION GSpec
CONSTANTS Limit = 300000
 Sweep = 150
INVARIANTS Complete Single Doubling Methods
CHECK_DEADLOCK FALSE
